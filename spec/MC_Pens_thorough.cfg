SPECIFICATION Spec
CONSTANTS
  Points = 5
  Depth = 1
  Emit = FALSE
  Small = FALSE
INVARIANTS Faithful SameAsContours SmoothStays
PROPERTIES FirstStays OthersStay
CHECK_DEADLOCK FALSE
