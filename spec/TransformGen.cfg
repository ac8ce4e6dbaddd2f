INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 Vals = {0, 1, 3}
