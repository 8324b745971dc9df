CONSTANTS MaxW = 2
 MaxL = 2
 Top = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
