SPECIFICATION Spec
CONSTANTS
  Points = 4
  Depth = 3
  Emit = TRUE
  Small = TRUE
INVARIANTS Faithful SameAsContours SmoothStays
PROPERTIES FirstStays OthersStay
CHECK_DEADLOCK FALSE
