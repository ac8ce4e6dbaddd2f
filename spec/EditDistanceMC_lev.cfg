INIT Init
NEXT Next
CONSTANTS Alphabet = {1, 2}
 SrcLen = 4
 MaxStr = 4
 Mode = "lev"
INVARIANT DistanceIsSteps
CHECK_DEADLOCK FALSE
