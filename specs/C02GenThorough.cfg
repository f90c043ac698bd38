CONSTANTS
  Tags = {1, 2}
  MaxLen = 4
  AllOps = FALSE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
