CONSTANTS Pool = "full"
 MaxB = 1
 MaxO = 1
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
