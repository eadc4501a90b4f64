CONSTANTS N = 4 Strict = TRUE
SPECIFICATION Spec
INVARIANTS Sorted PosInverse Starts NeverBelow CoresAtEnd
CHECK_DEADLOCK FALSE
