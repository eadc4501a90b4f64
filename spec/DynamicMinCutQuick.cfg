CONSTANTS N = 4 WMax = 1 UseCache = TRUE Forget = FALSE
INIT Init
NEXT Next
INVARIANTS ValueExact Sound Complete CacheBounds
CHECK_DEADLOCK FALSE
