CONSTANTS Lo = 1000
 Hi = 1004
 Depth = 3
 Rate = 10
 Only = "all"
 Mode = "nest"
 Calls = 3
 NT = 2
 NS = 4
INIT InitS
NEXT NextS
INVARIANT Session
INVARIANT Comp
CHECK_DEADLOCK FALSE
VIEW View
