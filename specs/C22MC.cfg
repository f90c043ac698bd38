SPECIFICATION Spec
CONSTANTS Width = 5
Bits = 5
Den = 70
INVARIANTS Rebuilds Splits SomeCode
CHECK_DEADLOCK FALSE
