CONSTANTS Mode = "cols"
 MaxLen = 3
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
