SPECIFICATION Spec
CONSTANTS
  Size = 4
  Emit = FALSE
  Flags = {0}
INVARIANTS Compatible Converted Twice
CHECK_DEADLOCK FALSE
