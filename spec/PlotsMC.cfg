CONSTANTS
  N = 3
  Top = 2
INIT Init
NEXT Next
INVARIANT Risen
INVARIANT Curve
INVARIANT Fits
INVARIANT Binned
INVARIANT Thinned
CHECK_DEADLOCK FALSE
