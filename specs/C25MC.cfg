SPECIFICATION Spec
CONSTANTS MaxNodes = 2
MaxFrames = 2
INVARIANTS Inside Once Whole Short
CHECK_DEADLOCK FALSE
