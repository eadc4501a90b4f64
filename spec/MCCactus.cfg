INIT Init
NEXT Next
CONSTANTS N = 4 WMax = 2
INVARIANTS KernelExact FewCuts Corners BestIsBest
CHECK_DEADLOCK FALSE
