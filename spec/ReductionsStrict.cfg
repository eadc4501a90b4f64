INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
N = 4
WMax = 3
Mode = "all"
Guard = TRUE
Singles = TRUE
Strict = FALSE
INVARIANTS Kept
