CONSTANTS
  N = 2
  Share = 3
INIT Init
NEXT Next
INVARIANT Emit
