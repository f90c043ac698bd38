CONSTANTS
  Openers = {1, 2, 3}
  Savers = {4}
  UseOuter = TRUE
SPECIFICATION Spec
INVARIANTS Once SameObject
PROPERTY Finishes
CHECK_DEADLOCK FALSE
