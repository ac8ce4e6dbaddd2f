INIT Init
NEXT Next
CONSTANTS Alphabet = {97, 233, 128512}
 N = 3
INVARIANTS Laws ScanIsNearest
CHECK_DEADLOCK FALSE
