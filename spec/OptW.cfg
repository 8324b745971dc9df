SPECIFICATION Spec
CONSTANTS
 MaxRows = 11
 MaxDeep = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
