CONSTANTS MaxU = 2
 MaxE = 3
INIT Init
NEXT Next
INVARIANTS NeverMerged Emit
CHECK_DEADLOCK FALSE
