CONSTANTS Lo = 1000
 Hi = 3000
 Depth = 3
 Rate = 12
 Only = "all"
 Mode = "chain"
INIT InitC
NEXT NextC
INVARIANT CheckC
CHECK_DEADLOCK FALSE
