SPECIFICATION Spec
CONSTANTS MaxBefore = 3
MaxAfter = 3
INVARIANTS Nearest Decided
CHECK_DEADLOCK FALSE
