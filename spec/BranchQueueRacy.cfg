CONSTANTS
  Threads = 2
  MaxProblems = 3
  Counter = FALSE
  EarlyDone = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK OnePlace NothingLost Counted
CHECK_DEADLOCK TRUE
