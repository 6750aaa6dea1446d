CONSTANTS NEnt = 8
 Glyphs = {4, 6, 8}
 Broken = {}
 Depth = 14
 Show = TRUE
INIT Init
NEXT Next
INVARIANTS Latest Emit
CHECK_DEADLOCK FALSE
