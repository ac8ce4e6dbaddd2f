INIT Init
NEXT Next
CONSTANTS N = 4
CHECK_DEADLOCK FALSE
INVARIANT Emit
