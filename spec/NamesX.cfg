CONSTANTS Kind = "f"
 MaxE = 2
 Read = FALSE
 Wide = FALSE
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
