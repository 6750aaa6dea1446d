SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emit = TRUE
INVARIANTS OneByOne
CHECK_DEADLOCK FALSE
