CONSTANTS N = 3 MergeOpenOnly = FALSE
SPECIFICATION Spec
INVARIANTS StrongAtEnd
CHECK_DEADLOCK FALSE
