CONSTANTS
  Depth = 2
  Share = 40
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
