SPECIFICATION Spec
CONSTANTS Depth = 4 Emit = TRUE Shared = {}
INVARIANTS FontsStay BuilderStays MastersStay
CHECK_DEADLOCK FALSE
