INIT Init
NEXT Next
CONSTANTS N = 4 WMax = 3
INVARIANTS Oracles HeavyNeverCut
CHECK_DEADLOCK FALSE
