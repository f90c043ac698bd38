SPECIFICATION Spec
CONSTANTS Parts = 4
Data = FALSE
INVARIANTS RepairSettles RepairWorks RepairKeepsChains Chains
CHECK_DEADLOCK FALSE
