CONSTANTS
  NF = 257
  Share = 53
INIT Init
NEXT Next
INVARIANT Emit
