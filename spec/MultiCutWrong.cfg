CONSTANTS N = 4 K = 2 WMax = 2 Rules = {"wrong"} BadRule = FALSE
SPECIFICATION Spec
INVARIANTS NeverLost NeverBelow AtEnd DfsIsBrute

CHECK_DEADLOCK FALSE
