CONSTANTS Alpha = "sec"
 MaxLen = 3
 Prefixes = "sec"
 Lead = 0
INIT Init
NEXT Next
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
