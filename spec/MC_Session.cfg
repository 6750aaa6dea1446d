SPECIFICATION Spec
CONSTANTS Depth = 4 Emit = FALSE Shared = {}
INVARIANTS FontsStay BuilderStays MastersStay
CHECK_DEADLOCK FALSE
