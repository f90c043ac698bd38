CONSTANTS
  Letters = {97, 98}
  MaxP = 5
  MaxS = 6
SPECIFICATION Spec
INVARIANTS Agree Laws
CHECK_DEADLOCK FALSE
