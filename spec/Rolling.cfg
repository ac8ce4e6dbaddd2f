CONSTANTS
  Xs = {0, 1, 3}
  Ys = {0, 2}
  Window = 3
  Bias = TRUE
  Lambda = "0"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Refits
