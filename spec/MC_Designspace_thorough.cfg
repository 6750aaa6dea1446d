SPECIFICATION Spec
CONSTANTS MaxAxes = 3 MaxMasters = 4 MaxMaps = 3 MaxInst = 2 Emit = TRUE
INVARIANTS Accepts Rejects Sorted
CHECK_DEADLOCK FALSE
