CONSTANTS N = 3 MergeOpenOnly = TRUE
SPECIFICATION Spec
INVARIANTS StrongAtEnd
CHECK_DEADLOCK FALSE
