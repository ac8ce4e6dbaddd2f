INIT Init
NEXT Next
CONSTANT K = 6
INVARIANT Agree
CHECK_DEADLOCK FALSE
