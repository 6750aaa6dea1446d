SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
  Reps = {0, 2, 3}
INVARIANTS Meaning Whole OwnPoints Ghosts
CHECK_DEADLOCK FALSE
