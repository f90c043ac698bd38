SPECIFICATION TSpec
CONSTANTS VBits <- VB
FBits = 16
INVARIANT Accepted
CHECK_DEADLOCK FALSE
