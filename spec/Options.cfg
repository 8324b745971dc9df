CONSTANTS Lo = 1000
 Hi = 9000
 Depth = 5
 Mode = "rand"
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
