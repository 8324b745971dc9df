CONSTANTS KindSet = "all"
 MaxLen = 3
 MaxD = 2
INIT Init
NEXT Next
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
