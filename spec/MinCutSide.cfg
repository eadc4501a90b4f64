SPECIFICATION Spec
CONSTANTS N = 4 WMax = 2 Slack = 1 Approx = FALSE
INVARIANTS SideRealisesBest NeverBelow NeverLost AllCutsKept
CHECK_DEADLOCK FALSE
