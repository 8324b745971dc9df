SPECIFICATION Spec
CONSTANTS
 What = "e"
 Wide = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
