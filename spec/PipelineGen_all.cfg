INIT Init
NEXT Next
CONSTANTS N = 2
 Share = 11
 Depth = 2
 Wide = FALSE
 Before <- Earlier
 Kinds = {"mean", "mode", "modes", "cond", "all", "std", "unit", "abs", "win", "hot", "rank", "tenc", "woe", "lin", "keep", "twice", "rename", "nostr"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
