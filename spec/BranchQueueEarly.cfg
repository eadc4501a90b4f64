CONSTANTS
  Threads = 2
  MaxProblems = 3
  Counter = TRUE
  EarlyDone = TRUE
INIT Init
NEXT Next
INVARIANTS TypeOK OnePlace NothingLost Counted
CHECK_DEADLOCK TRUE
