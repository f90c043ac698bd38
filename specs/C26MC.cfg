SPECIFICATION Spec
INVARIANTS NothingLeft NothingElse Possible Determined
CHECK_DEADLOCK FALSE
