CONSTANTS
  NF = 300
  G = 3
  Share = 11
INIT Init
NEXT Next
INVARIANT Emit
