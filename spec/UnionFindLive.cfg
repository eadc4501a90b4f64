CONSTANTS N = 3 Threads = 2 MaxOps = 1 Ordered = TRUE
SPECIFICATION Spec
INVARIANTS Forest Represents RightAnswers
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
