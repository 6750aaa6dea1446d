SPECIFICATION Spec
CONSTANTS
  Points = 3
  Depth = 2
  Emit = FALSE
  Small = FALSE
INVARIANTS Faithful SameAsContours SmoothStays
PROPERTIES FirstStays OthersStay
CHECK_DEADLOCK FALSE
