CONSTANTS Bases = "all"
 Depth = 1
 Mode = "good"
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
