CONSTANTS
  MaxRows = 2
  Depth = 5
INIT Init
NEXT Next
INVARIANTS Announced WellTyped Unique Shows Runs
CHECK_DEADLOCK FALSE
