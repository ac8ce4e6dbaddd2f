CONSTANTS
  NF = 257
  Share = 11
INIT Init
NEXT Next
INVARIANT Emit
