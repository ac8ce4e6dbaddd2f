INIT Init
NEXT Next
CONSTANTS Alphabet = {97, 98, 233}
 N = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
