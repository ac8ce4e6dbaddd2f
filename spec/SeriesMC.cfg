CONSTANTS
 N = 5
 Vals = {0, 1, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Streaks Phrases Sums Entropies Regularity Similarity KnnLaws
