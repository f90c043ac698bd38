CONSTANTS
  Tags = {1, 2}
  MaxLen = 3
  AllOps = FALSE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
