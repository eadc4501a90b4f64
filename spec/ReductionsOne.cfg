INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
N = 4
WMax = 3
Mode = "one"
Guard = TRUE
Singles = TRUE
Strict = TRUE
INVARIANTS Kept
