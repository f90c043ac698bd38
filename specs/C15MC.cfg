SPECIFICATION Spec
CONSTANTS Size = 4
Most = 2
INVARIANTS Whole Texts
CHECK_DEADLOCK FALSE
