INIT Init
NEXT Next
CONSTANTS Alphabet = {97, 98}
 N = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
