CONSTANTS
  N = 5
  Share = 11
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
