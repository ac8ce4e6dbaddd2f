CONSTANTS
  NF = 300
  G = 4
  Share = 7
INIT Init
NEXT Next
INVARIANT Emit
