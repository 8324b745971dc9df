CONSTANTS Hd = "Typed"
 MaxA = 2
 Small = FALSE
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
