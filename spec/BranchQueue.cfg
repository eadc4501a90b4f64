CONSTANTS
  Threads = 2
  MaxProblems = 4
  Counter = TRUE
  EarlyDone = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK OnePlace NothingLost Counted
PROPERTIES Terminates EndStays
CHECK_DEADLOCK TRUE
