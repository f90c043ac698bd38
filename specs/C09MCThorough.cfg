CONSTANTS MaxTags = 4 MaxWorkers = 3
SPECIFICATION Spec
INVARIANTS AtMostOnce Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
