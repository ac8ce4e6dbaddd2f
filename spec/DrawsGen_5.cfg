CONSTANTS
  N = 5
  Vals = {0, 1, 2, 3}
INIT Init
NEXT Next
INVARIANT Emit
