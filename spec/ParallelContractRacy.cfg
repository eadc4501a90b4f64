INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
N = 4
K = 2
Threads = 2
Locked = FALSE
Reserved = TRUE
INVARIANTS Quotient
