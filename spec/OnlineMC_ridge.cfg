CONSTANTS
  Bias = FALSE
  Lambda = "1/2"
  MaxCount = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT SameModel
