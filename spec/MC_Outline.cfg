SPECIFICATION Spec
CONSTANTS
  Size = 4
  Emit = FALSE
  Flags = {0, 1}
INVARIANTS SamePath SameStructure SameFunction Count
CHECK_DEADLOCK FALSE
