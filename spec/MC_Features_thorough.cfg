SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Picks = {1, 2, 4, 5, 6, 14}
  Emit = FALSE
INVARIANTS Broken Kept Stable Renames
CHECK_DEADLOCK FALSE
