SPECIFICATION Spec
CONSTANTS VBits <- VB
FBits = 3
Wide = FALSE
INVARIANTS RestoreWorks RepairWorks Lossless
CHECK_DEADLOCK FALSE
