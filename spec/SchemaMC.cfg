CONSTANTS
  MaxRows = 2
  Depth = 3
INIT Init
NEXT Next
INVARIANTS Announced WellTyped Unique Shows Runs
CHECK_DEADLOCK FALSE
