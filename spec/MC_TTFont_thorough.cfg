SPECIFICATION Spec
CONSTANTS Depth = 3 Emit = TRUE
INVARIANTS Meaning OneEach Deltas AllDeltas Accepts Rejects
CHECK_DEADLOCK FALSE
