CONSTANTS
  Locs = {1, 2, 3}
  Tags = {1, 2}
  Values = {1, 2}
  MaxDirs = 3
SPECIFICATION Spec
INVARIANTS OneCopy Promises
CHECK_DEADLOCK FALSE
