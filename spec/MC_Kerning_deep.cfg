SPECIFICATION Spec
CONSTANTS
  Glyphs2 = TRUE
  Vals = {0, 5}
  Flags2 = {3072}
  Emit = FALSE
INVARIANTS Resolves Disjoint AllPairs
CHECK_DEADLOCK FALSE
