CONSTANTS
 N = 3
 Vals = {0, 1, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS OnePass Bounds Ranking Stability
