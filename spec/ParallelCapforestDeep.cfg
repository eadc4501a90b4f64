INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
N = 4
WMax = 2
Threads = 2
Racy = FALSE
WithDisable = FALSE
AnyOrder = FALSE
INVARIANTS Safe Honest InStep
