CONSTANTS MaxLen = 6
 Ids = {2001}
 Alphabet = {1, 2, 3, 4, 5, 6, 8, 10, 15, 139, 140, 9, 40, 42, 43}
 Masters = {1}
INIT Init
NEXT Next
INVARIANT Stable
CHECK_DEADLOCK FALSE
