SPECIFICATION Spec
INVARIANT All
CONSTANTS
 Perms = 4
 Gains = {0, 1}
CHECK_DEADLOCK FALSE
