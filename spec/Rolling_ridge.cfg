CONSTANTS
  Xs = {0, 1, 3}
  Ys = {0, 2}
  Window = 2
  Bias = FALSE
  Lambda = "1/2"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Refits
