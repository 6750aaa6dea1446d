SPECIFICATION Spec
CONSTANTS Depth = 4 Emit = FALSE Shared = {"builder-result"}
INVARIANTS FontsStay BuilderStays MastersStay
CHECK_DEADLOCK FALSE
