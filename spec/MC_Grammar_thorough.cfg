CONSTANTS MaxLen = 6
 Ids = {10, 1742, 1276, 1138, 1141, 1068, 2024, 2026, 1254, 1294, 1296, 1295, 1271, 1269, 1268, 1266, 1524, 1255, 1273, 1410, 2008, 2023, 2019, 2010, 2009, 2028, 2020, 2029, 2031, 1743, 1523, 1500}
 Alphabet = {0, 1, 2, 139, 140, 141, 247}
 Masters = {1, 2}
INIT Init
NEXT Next
INVARIANT Stable
CHECK_DEADLOCK FALSE
