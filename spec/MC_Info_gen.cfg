SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
INVARIANTS Same Calendar Known
CHECK_DEADLOCK FALSE
