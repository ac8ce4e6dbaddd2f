CONSTANTS
 N = 5
 NB = 9
 Vals = {0, 1, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Emit
