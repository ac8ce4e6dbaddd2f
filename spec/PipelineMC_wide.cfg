INIT Init
NEXT Next
CONSTANTS N = 2
 Depth = 2
 Wide = TRUE
 Before <- Earlier
 Kinds = {"mean", "mode", "modes", "cond", "all", "std", "unit", "abs", "win", "hot", "rank", "tenc", "woe", "lin", "keep", "twice", "rename", "nostr"}
INVARIANTS RowWise OrderFree OrderFreeFit SameColumns TargetKept Imputed Centred UnitRange Hot Winsorized EncodedBetween
CHECK_DEADLOCK FALSE
