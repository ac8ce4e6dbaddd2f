CONSTANTS
  Xs <- XSet
  Ys = {0, 1, 3}
  N = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Least Inverts Determined SoftIsOptimal OnlySoft Robust
