SPECIFICATION Spec
CONSTANTS Depth = 4 Emit = FALSE Shared = {"masters"}
INVARIANTS FontsStay BuilderStays MastersStay
CHECK_DEADLOCK FALSE
