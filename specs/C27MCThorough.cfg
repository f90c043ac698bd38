SPECIFICATION Spec
CONSTANTS VBits <- VB
FBits = 3
Wide = TRUE
INVARIANTS RestoreWorks RepairWorks Lossless
CHECK_DEADLOCK FALSE
