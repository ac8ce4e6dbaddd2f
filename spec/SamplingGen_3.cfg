CONSTANTS
  N = 4
  Share = 3
INIT Init
NEXT Next
INVARIANT Emit
