CONSTANTS N = 3 Threads = 2 MaxOps = 1 Ordered = FALSE
SPECIFICATION Spec
INVARIANTS Forest Represents RightAnswers
CHECK_DEADLOCK FALSE
