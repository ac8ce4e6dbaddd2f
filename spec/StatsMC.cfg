CONSTANTS
 N = 3
 Ascending = TRUE
 Vals = {0, 1, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Kendall Xi Weighted
