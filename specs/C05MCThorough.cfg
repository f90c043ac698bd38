CONSTANTS
  K = 3
  MaxBroken = 3
  EmitCases = TRUE
SPECIFICATION Spec
INVARIANTS Right Once Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
