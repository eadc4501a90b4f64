SPECIFICATION Spec
CONSTANTS N = 4 WMax = 2 Slack <- MinusOne Approx = FALSE
INVARIANTS ExactAtEnd
CHECK_DEADLOCK FALSE
