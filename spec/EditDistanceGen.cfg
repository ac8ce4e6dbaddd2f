INIT Init
NEXT Next
CONSTANTS Alphabet = {97, 233, 128512}
 N = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
