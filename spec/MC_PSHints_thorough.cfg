SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Emit = FALSE
  Reps = {0, 2, 3}
INVARIANTS Meaning Whole OwnPoints Ghosts
CHECK_DEADLOCK FALSE
