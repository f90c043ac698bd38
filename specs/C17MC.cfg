SPECIFICATION Spec
CONSTANTS
 Side = 16
 DepthMax = 9
INVARIANTS Layout Permutation
CHECK_DEADLOCK FALSE
