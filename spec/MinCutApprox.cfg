SPECIFICATION Spec
CONSTANTS N = 4 WMax = 2 Slack = 0 Approx = TRUE
INVARIANTS SideRealisesBest NeverBelow ApproxAtEnd
CHECK_DEADLOCK FALSE
