SPECIFICATION Spec
INVARIANT Kept
CONSTANTS
 MaxW = 2
 MaxH = 1
 MaxSeqs = 2
 MaxImages = 2
CHECK_DEADLOCK FALSE
