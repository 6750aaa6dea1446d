CONSTANTS NEnt = 8
 Glyphs = {4, 6, 8}
 Broken = {1, 6, 7}
 Depth = 14
 Show = TRUE
INIT Init
NEXT Next
INVARIANTS Latest Emit
CHECK_DEADLOCK FALSE
