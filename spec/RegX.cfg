CONSTANTS MaxN = 2
 MaxU = 2
 MaxLen = 3
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
