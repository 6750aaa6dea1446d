SPECIFICATION Spec
CONSTANTS MaxAxes = 2 MaxMasters = 3 MaxMaps = 3 MaxInst = 2 Emit = TRUE
INVARIANTS Accepts Rejects Sorted
CHECK_DEADLOCK FALSE
