SPECIFICATION Spec
CONSTANTS
  Points = 4
  Depth = 4
  Emit = FALSE
  Small = TRUE
INVARIANTS Faithful SameAsContours SmoothStays
PROPERTIES FirstStays OthersStay
CHECK_DEADLOCK FALSE
