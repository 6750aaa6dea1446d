CONSTANTS NEnt = 3
 Glyphs = {2}
 Broken = {2, 3}
 Depth = 6
 Show = FALSE
INIT Init
NEXT Next
VIEW Quiet
INVARIANTS Latest Untouched Original FileLatest SaveIsLatest BrokenKept Flagged NoFalseFlag
CHECK_DEADLOCK FALSE
