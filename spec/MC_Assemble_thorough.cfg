SPECIFICATION Spec
CONSTANTS
  Size = 6
  Emit = FALSE
  Names = {"a", "a#0", ""}
  Kinds = {"unicodes", "gnote", "gdef", "mark", "mask", "unicodes2", "gcustomdata", "image"}
INVARIANTS RightGlyph AllThere NamesDistinct Lists
CHECK_DEADLOCK FALSE
