CONSTANTS
  Threads = 3
  MaxProblems = 6
  Counter = TRUE
  EarlyDone = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK OnePlace NothingLost Counted
