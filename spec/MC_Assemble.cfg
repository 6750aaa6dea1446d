SPECIFICATION Spec
CONSTANTS
  Size = 5
  Emit = FALSE
  Names = {"a", "a#0", ""}
  Kinds = {"unicodes", "gnote", "gdef", "mark", "mask"}
INVARIANTS RightGlyph AllThere NamesDistinct Lists
CHECK_DEADLOCK FALSE
