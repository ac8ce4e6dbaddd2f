CONSTANTS
 N = 3
 Ascending = TRUE
 Vals = {0, 2}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Ranksum TTests ChiSquare KolmogorovSmirnov
