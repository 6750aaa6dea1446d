SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
  Reps = {0,1,2,3,4}
INVARIANTS Meaning Whole OwnPoints Ghosts
CHECK_DEADLOCK FALSE
