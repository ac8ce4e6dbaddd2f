INIT Init
NEXT Next
CONSTANT K = 5
INVARIANTS Identities Values
CHECK_DEADLOCK FALSE
