SPECIFICATION Spec
CONSTANTS Width = 8
Bits = 7
Den = 500
INVARIANTS Rebuilds Splits SomeCode
CHECK_DEADLOCK FALSE
