SPECIFICATION Spec
CONSTANTS MaxBefore = 2
MaxAfter = 3
INVARIANTS Nearest Decided
CHECK_DEADLOCK FALSE
