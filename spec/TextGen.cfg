CONSTANTS
  Alphabet = {32, 97, 66, 49, 46, 44, 233, 769}
  N = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Emit
