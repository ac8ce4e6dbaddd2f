CONSTANTS
  R = 4
  K = 3
INIT Init
NEXT Next
INVARIANT SameReach
INVARIANT NoLoop
INVARIANT OneEnd
INVARIANT OnePass
INVARIANT Entropy0
CHECK_DEADLOCK FALSE
