INIT Init
NEXT Next
CONSTANTS Alphabet = {1, 2}
 SrcLen = 3
 MaxStr = 3
 Mode = "lev"
INVARIANT Laws
CHECK_DEADLOCK FALSE
