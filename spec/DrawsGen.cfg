CONSTANTS
  N = 4
  Vals = {0, 1, 2, 3}
INIT Init
NEXT Next
INVARIANT Emit
