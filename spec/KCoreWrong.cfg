CONSTANTS N = 4 Strict = FALSE
SPECIFICATION Spec
INVARIANTS CoresAtEnd
CHECK_DEADLOCK FALSE
