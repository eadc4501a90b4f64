SPECIFICATION Spec
CONSTANTS
  Ranks = 3
  Threads = 1
  MaxProblems = 3
  Unsolicited = FALSE
  Stale = FALSE
  PromiseFirst = FALSE
INVARIANTS NothingLost Orderly OnceEach
