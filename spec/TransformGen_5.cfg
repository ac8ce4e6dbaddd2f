INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 5
 Vals = {0, 1, 3}
