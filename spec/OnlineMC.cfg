CONSTANTS
  Bias = TRUE
  Lambda = "0"
  MaxCount = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT SameModel
