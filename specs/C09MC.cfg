CONSTANTS MaxTags = 3 MaxWorkers = 2
SPECIFICATION Spec
INVARIANTS AtMostOnce Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
