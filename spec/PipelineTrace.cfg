INIT Init
NEXT Next
CONSTANT Before <- IsBefore
CHECK_DEADLOCK FALSE
