CONSTANTS N = 3 WMax = 2 UseCache = TRUE Forget = TRUE
INIT Init
NEXT Next
INVARIANTS ValueExact Sound Complete CacheBounds
CHECK_DEADLOCK FALSE
