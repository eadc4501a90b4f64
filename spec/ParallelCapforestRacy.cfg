INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
N = 4
WMax = 2
Threads = 2
Racy = TRUE
WithDisable = FALSE
AnyOrder = FALSE
INVARIANTS Safe Honest InStep
