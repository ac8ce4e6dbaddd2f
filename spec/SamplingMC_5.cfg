CONSTANTS
  N = 5
  Groups = {"a", "b", "null"}
  Ratios = {"1/2", "1/3", "1/4", "1/10", "3/10", "2/3"}
  Counts = {1, 2, 3, 7}
INIT Init
NEXT Next
INVARIANT Allowed
