CONSTANTS N = 3 Threads = 2 MaxOps = 2 Ordered = TRUE
SPECIFICATION Spec
INVARIANTS Forest Represents RightAnswers
CHECK_DEADLOCK FALSE
