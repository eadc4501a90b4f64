CONSTANTS
  Threads = 3
  MaxProblems = 4
  Counter = TRUE
  EarlyDone = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK OnePlace NothingLost Counted
CHECK_DEADLOCK TRUE
