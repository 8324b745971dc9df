CONSTANTS Mode = "agg"
 Ws = {0, 1, 9, 10}
 MaxG = 2
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
