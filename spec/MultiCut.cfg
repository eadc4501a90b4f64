CONSTANTS N = 4 K = 3 WMax = 2 Rules = {"lowdeg", "heavy", "hiterm", "iso", "flow", "noi", "triangle", "equal"} BadRule = FALSE
SPECIFICATION Spec
INVARIANTS NeverLost NeverBelow AtEnd DfsIsBrute
PROPERTY Termination
CHECK_DEADLOCK FALSE
