SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS Same Calendar Known
CHECK_DEADLOCK FALSE
