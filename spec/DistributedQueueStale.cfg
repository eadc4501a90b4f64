SPECIFICATION Spec
CONSTANTS
  Ranks = 2
  Threads = 2
  MaxProblems = 4
  Unsolicited = FALSE
  Stale = TRUE
  PromiseFirst = FALSE
INVARIANTS NothingLost Orderly OnceEach

