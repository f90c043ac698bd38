CONSTANTS
  Letters = {"0", "1", "2", "e", "*", "-", ","}
  MaxLen = 5
  Lens = {0, 1, 3}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
