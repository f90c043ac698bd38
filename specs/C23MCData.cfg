SPECIFICATION Spec
CONSTANTS Parts = 2
Data = TRUE
INVARIANTS RepairSettles RepairWorks RepairKeepsChains Chains
CHECK_DEADLOCK FALSE
