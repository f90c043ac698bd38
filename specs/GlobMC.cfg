CONSTANTS
  Letters = {97, 98}
  MaxP = 4
  MaxS = 4
SPECIFICATION Spec
INVARIANTS Agree Laws
CHECK_DEADLOCK FALSE
