SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Picks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
  Emit = TRUE
INVARIANTS Broken Kept Stable Renames
CHECK_DEADLOCK FALSE
