CONSTANTS
  Locs = {1, 2, 3}
  Values = {1, 2, 1001}
  MaxDirs = 3
  TagsToSave = {1}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
