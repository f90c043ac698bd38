CONSTANTS
  Openers = {1, 2, 3, 4}
  Savers = {}
  UseOuter = FALSE
SPECIFICATION Spec
INVARIANTS Once SameObject
PROPERTY Finishes
CHECK_DEADLOCK FALSE
