CONSTANTS Lo = 1000
 Hi = 9000
 Depth = 3
 Rate = 10
 Only = "all"
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
