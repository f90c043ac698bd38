CONSTANTS
  Letters = {97, 65, 92, 47, 46, 58, 233, 49, 108}
  MaxLen = 6
  EmitCases = TRUE
SPECIFICATION Spec
INVARIANTS NormalForm Contained NoDouble LowerCase Base Emit
CHECK_DEADLOCK FALSE
