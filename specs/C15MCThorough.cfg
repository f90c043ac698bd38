SPECIFICATION Spec
CONSTANTS Size = 5
Most = 3
INVARIANTS Whole Texts
CHECK_DEADLOCK FALSE
