INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
N = 4
K = 3
Threads = 2
Locked = TRUE
Reserved = TRUE
INVARIANTS Quotient
