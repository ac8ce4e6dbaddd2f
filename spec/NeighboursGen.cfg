CONSTANTS
  Coords = {0, 2, 4}
  N = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Emit
