CONSTANTS
  N = 2
  Share = 23
INIT Init
NEXT Next
INVARIANT Emit
