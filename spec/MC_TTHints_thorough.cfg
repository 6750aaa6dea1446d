SPECIFICATION Spec
CONSTANTS Depth = 2 Emit = TRUE Qs = {0, 1, 2, 3, 4}
INVARIANTS AsFound AllThere Accepts
CHECK_DEADLOCK FALSE
