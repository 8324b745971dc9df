CONSTANTS Depths = {10, 100, 3000}
 Limit = 100
 Forms = {"validate"}
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
