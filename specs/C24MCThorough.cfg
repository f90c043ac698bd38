SPECIFICATION Spec
CONSTANTS VBits <- VB
FBits = 4
MaxNodes = 2
LocalNodes = 2
Nodes = 3
Wide = TRUE
INVARIANTS RepairWorks RecompressWorks Lossless Conversions Bounds Flips
CHECK_DEADLOCK FALSE
