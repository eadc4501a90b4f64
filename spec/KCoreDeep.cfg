CONSTANTS N = 5 Strict = TRUE
SPECIFICATION Spec
INVARIANTS Sorted PosInverse Starts NeverBelow CoresAtEnd
CHECK_DEADLOCK FALSE
