CONSTANTS Names = {"b.json", "d.pb"}
 Depth = 1
INIT Init
NEXT Next
INVARIANT Edges
VIEW View
CHECK_DEADLOCK FALSE
