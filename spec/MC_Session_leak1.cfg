SPECIFICATION Spec
CONSTANTS Depth = 4 Emit = FALSE Shared = {"font-builder", "builder-result"}
INVARIANTS FontsStay BuilderStays MastersStay
CHECK_DEADLOCK FALSE
