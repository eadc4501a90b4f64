INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
N = 5
K = 3
Threads = 2
Locked = TRUE
Reserved = TRUE
INVARIANTS Quotient
