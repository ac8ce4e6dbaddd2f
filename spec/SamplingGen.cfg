CONSTANTS
  N = 4
  Share = 37
INIT Init
NEXT Next
INVARIANT Emit
