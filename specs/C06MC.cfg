CONSTANTS
  Names = {11, 12, 21, 31}
  Threads = {1, 2}
SPECIFICATION Spec
INVARIANTS Housed Kept AllOrNothing EachOnce
CHECK_DEADLOCK FALSE
