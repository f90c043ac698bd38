SPECIFICATION Spec
CONSTANTS Chars = {97, 32, 10, 40, 41, 59, 34, 92, 42}
MaxLen = 3
Nodes = 3

INVARIANTS ReadsBack QuotesNeeded Fits TreesFine NoAlarm Deepest
CHECK_DEADLOCK FALSE
