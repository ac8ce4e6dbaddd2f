CONSTANTS
  N = 4
  Share = 11
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
