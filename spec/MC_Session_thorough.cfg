SPECIFICATION Spec
CONSTANTS Depth = 5 Emit = FALSE Shared = {}
INVARIANTS FontsStay BuilderStays MastersStay
CHECK_DEADLOCK FALSE
