CONSTANTS
  Xs = {0, 1, 3}
  Ys = {1}
  Window = 4
  Bias = TRUE
  Lambda = "0"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Refits
