CONSTANTS
  Letters = {"0", "1", "2", "e", "*", "-", ","}
  MaxLen = 4
  Lens = {0, 1, 2, 3}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
