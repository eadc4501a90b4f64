INIT Init
NEXT Next
CONSTANTS N = 5 WMax = 2
INVARIANTS KernelExact FewCuts Corners BestIsBest
CHECK_DEADLOCK FALSE
