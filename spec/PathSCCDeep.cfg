CONSTANTS N = 4 MergeOpenOnly = TRUE
SPECIFICATION Spec
INVARIANTS StrongAtEnd
CHECK_DEADLOCK FALSE
