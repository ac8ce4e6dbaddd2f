INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 6
 Vals = {0, 1, 3}
