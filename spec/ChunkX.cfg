CONSTANTS Set = "some"
 MaxLen = 2
 MaxD = 2
 Crlf = FALSE
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
