CONSTANTS
  Threads = {1, 2, 3}
  Skip = FALSE
  Early = FALSE
  Naive = FALSE
SPECIFICATION Spec
INVARIANTS Complete Released
CHECK_DEADLOCK TRUE
