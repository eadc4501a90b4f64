SPECIFICATION Spec
CONSTANTS N = 4 WMax = 2 Slack = 0 Approx = FALSE
INVARIANTS SideRealisesBest NeverBelow NeverLost ExactAtEnd
CHECK_DEADLOCK FALSE
