CONSTANTS
  Tags = {1, 2}
  Values = {1, 2}
  MaxHandles = 2
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS Coherent Separate Instant CommitAll
PROPERTY WriteBack
CHECK_DEADLOCK FALSE
