SPECIFICATION Spec
INVARIANT Recovered
CONSTANTS
 Letters = {46, 97}
 MaxName = 2
 MaxSource = 1
 MaxFiles = 2
CHECK_DEADLOCK FALSE
