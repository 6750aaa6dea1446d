CONSTANTS MaxLen = 5
 Ids = {2001}
 Alphabet = {1, 2, 3, 4, 5, 6, 8, 10, 15, 139, 140}
 Masters = {0, 1, 2}
INIT Init
NEXT Next
INVARIANT Stable
CHECK_DEADLOCK FALSE
