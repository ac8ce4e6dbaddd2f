CONSTANTS
  Names = {"", "x", "y"}
  MaxLen = 2
INIT Init
NEXT Next
INVARIANTS Same Distinct
CHECK_DEADLOCK FALSE
