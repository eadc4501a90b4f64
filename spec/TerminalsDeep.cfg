CONSTANTS N = 5 K = 2 B = 3 Overlap = FALSE
SPECIFICATION Spec
INVARIANT AreasAtEnd
CHECK_DEADLOCK FALSE
