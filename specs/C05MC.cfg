CONSTANTS
  K = 3
  MaxBroken = 1
  EmitCases = TRUE
SPECIFICATION Spec
INVARIANTS Right Once Emit
CHECK_DEADLOCK FALSE
