CONSTANTS N = 3 Threads = 1 MaxOps = 5 Ordered = TRUE
INIT Init
NEXT Next
INVARIANTS Forest Represents RightAnswers
CHECK_DEADLOCK FALSE
