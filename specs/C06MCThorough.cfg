CONSTANTS
  Names = {11, 12, 21, 22, 31}
  Threads = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Housed Kept AllOrNothing EachOnce
PROPERTY Terminates
CHECK_DEADLOCK FALSE
