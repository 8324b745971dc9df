CONSTANTS Part = "days"
 Lo = 0
 Hi = 100
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
