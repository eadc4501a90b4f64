CONSTANTS N = 3 Threads = 3 MaxOps = 1 Ordered = TRUE
SPECIFICATION Spec
INVARIANTS Forest Represents RightAnswers
CHECK_DEADLOCK FALSE
