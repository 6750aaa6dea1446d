CONSTANT MaxEnt = 3
INIT Init
NEXT Next
INVARIANTS Ends Progress NotInvented OnlyBetween Rejected
CHECK_DEADLOCK FALSE
