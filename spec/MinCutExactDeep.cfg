SPECIFICATION Spec
CONSTANTS N = 5 WMax = 1 Slack = 0 Approx = FALSE
INVARIANTS SideRealisesBest NeverBelow NeverLost ExactAtEnd
CHECK_DEADLOCK FALSE
