CONSTANTS NEnt = 3
 Glyphs = {2}
 Broken = {}
 Depth = 7
 Show = FALSE
INIT Init
NEXT Next
VIEW Quiet
INVARIANTS Latest Untouched Original FileLatest SaveIsLatest
CHECK_DEADLOCK FALSE
