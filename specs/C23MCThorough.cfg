SPECIFICATION Spec
CONSTANTS Parts = 5
Data = FALSE
INVARIANTS RepairSettles RepairWorks RepairKeepsChains Chains
CHECK_DEADLOCK FALSE
