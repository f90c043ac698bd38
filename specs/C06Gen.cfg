CONSTANTS
  NNames = 5
  NFrom = 4
  NTo = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
