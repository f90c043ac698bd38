SPECIFICATION TSpec
CONSTANTS VBits <- VB
FBits = 16
MaxNodes = 42
LocalNodes = 22
INVARIANT Accepted
CHECK_DEADLOCK FALSE
