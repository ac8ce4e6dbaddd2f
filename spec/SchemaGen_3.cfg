CONSTANTS
  Depth = 3
  Share = 90
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
