SPECIFICATION Spec
CONSTANTS
 MaxF = 2
 MaxHops = 3
INVARIANTS
 TypeOK
 Emit
CHECK_DEADLOCK FALSE
