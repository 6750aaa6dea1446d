SPECIFICATION Spec
CONSTANTS Depth = 2 Emit = TRUE
INVARIANTS Meaning OneEach Deltas AllDeltas Accepts Rejects
CHECK_DEADLOCK FALSE
