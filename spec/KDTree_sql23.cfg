CONSTANTS
  Dim = 2
  Coords = {0, 2, 6}
  MaxPoints = 3
  Capacity = 1
  Eps = 0
  Metric = "sql2"
  Ks = {0, 1, 2}
  Bounds = {2, 4, 40}
  Median = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Holds Boxed Correct
