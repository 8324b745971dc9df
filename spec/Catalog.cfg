CONSTANTS MaxLen = 2
 UrnA = {1, 2}
 Anchors = {1, 2}
 UrnRefs = {1, 3}
 NameSet = {"f", "f:i", "f:", "g"}
 Kd = {"f", "t", "v"}
INIT Init
NEXT Next
INVARIANT Check
CHECK_DEADLOCK FALSE
