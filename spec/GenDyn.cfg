CONSTANTS N = 5 WMax = 2 UseCache = TRUE Forget = FALSE Depth = 16
INIT GInit
NEXT GNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
