SPECIFICATION Spec
CONSTANTS
  Size = 3
  Emit = TRUE
  Flags = {0}
INVARIANTS Compatible Converted Twice
CHECK_DEADLOCK FALSE
