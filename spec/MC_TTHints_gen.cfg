SPECIFICATION Spec
CONSTANTS Depth = 2 Emit = TRUE Qs = {0, 3}
INVARIANTS AsFound AllThere Accepts
CHECK_DEADLOCK FALSE
