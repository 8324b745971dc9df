SPECIFICATION Spec
CONSTANTS
 Lens = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 24, 31, 32, 33, 40, 63, 64, 65, 100, 130}
INVARIANT Emit
CHECK_DEADLOCK FALSE
