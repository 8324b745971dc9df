SPECIFICATION Spec
CONSTANTS
 MaxN = 4
 MaxP = 3
INVARIANTS
 Laws
 Emit
CHECK_DEADLOCK FALSE
