INIT Init
NEXT Next
INVARIANTS ReadBack Check CheckRead
CHECK_DEADLOCK FALSE
CONSTANTS Fields = {"urn", "f", "t", "v", "prod", "git"}
 Alpha = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
 MaxLen = 2
