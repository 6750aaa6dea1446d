SPECIFICATION Spec
CONSTANTS
  Glyphs2 = FALSE
  Vals = {0, 5}
  Flags2 = {1024, 2048, 3072}
  Emit = TRUE
INVARIANTS Resolves Disjoint AllPairs
CHECK_DEADLOCK FALSE
