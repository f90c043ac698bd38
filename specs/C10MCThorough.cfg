CONSTANT MaxLen = 4
SPECIFICATION MSpec
INVARIANTS Within Typed1 Arity Positional Spelled Grouped Helps Order
PROPERTY Ends
CHECK_DEADLOCK FALSE
