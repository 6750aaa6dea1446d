SPECIFICATION Spec
CONSTANTS
  Size = 4
  Emit = TRUE
  Flags = {0, 1}
INVARIANTS SamePath SameStructure SameFunction Count
CHECK_DEADLOCK FALSE
