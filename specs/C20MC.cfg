SPECIFICATION Spec
INVARIANT All
CONSTANTS
 Perms = 3
 Gains = {0, 1, 2}
CHECK_DEADLOCK FALSE
