CONSTANTS N = 4 K = 2 B = 3 Overlap = TRUE
SPECIFICATION Spec
INVARIANT AreasAtEnd
CHECK_DEADLOCK FALSE
