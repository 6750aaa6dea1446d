SPECIFICATION Spec
CONSTANTS
  Points = 4
  Depth = 1
  Emit = TRUE
  Small = FALSE
INVARIANTS Faithful SameAsContours SmoothStays
PROPERTIES FirstStays OthersStay
CHECK_DEADLOCK FALSE
