CONSTANTS N = 6 K = 3 WMax = 2 Rules = {"triangle", "equal", "heavy"} BadRule = FALSE
INIT InitTri
NEXT OnlyReduce
INVARIANTS NeverLost
CHECK_DEADLOCK FALSE
