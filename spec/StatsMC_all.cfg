CONSTANTS
 N = 3
 Ascending = FALSE
 Vals = {0, 1, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Ranksum Kendall Xi TTests ChiSquare KolmogorovSmirnov Weighted
