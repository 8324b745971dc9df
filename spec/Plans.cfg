CONSTANTS Lo = 1000
 Hi = 3000
 Depth = 4
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
