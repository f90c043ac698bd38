SPECIFICATION Spec
CONSTANTS MaxNodes = 3
MaxFrames = 2
INVARIANTS Inside Once Whole Short
CHECK_DEADLOCK FALSE
