CONSTANTS NEnt = 3
 Glyphs = {2}
 Broken = {}
 Depth = 3
 Show = TRUE
INIT Init
NEXT Next
INVARIANTS Latest Emit
CHECK_DEADLOCK FALSE
