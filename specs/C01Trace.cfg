CONSTANTS
  HStart <- SStart
  HAfter <- SAfter
  HOk <- SOk
SPECIFICATION TSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
