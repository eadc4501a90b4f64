SPECIFICATION Spec
CONSTANTS
  Ranks = 3
  Threads = 1
  MaxProblems = 5
  Unsolicited = TRUE
  Stale = FALSE
  PromiseFirst = FALSE
INVARIANTS NothingLost Orderly OnceEach

