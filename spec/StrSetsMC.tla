----------------------------- MODULE StrSetsMC -----------------------------
EXTENDS StrSets, TLC
CONSTANTS Alphabet, N
Strs(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
VARIABLES s, t, col, word, pos, best
vars == <<s, t, col, word, pos, best>>
(* two strings for the similarity laws; a column scanned for a word *)
Init == \/ s \in Strs(N) /\ t \in Strs(N) /\ col = <<>> /\ word = <<>> /\ pos = 0 /\ best = <<NoString, 0>>
        \/ s = <<>> /\ t = <<>> /\ word \in Strs(2) /\ pos = 0 /\ best = <<NoString, 0>>
           /\ col \in UNION {[1..k -> Strs(2) \cup {NoString}] : k \in 1..2}
Scan == pos < Len(col) /\ pos' = pos + 1 /\ best' = ScanStep(best, col[pos + 1], word, "lv", 1) /\ UNCHANGED <<s, t, col, word>>
Next == Scan
ScanIsNearest == pos = Len(col) => best[1] = NearestAmong(col, word, "lv", 1)
Is(x, y) == IF IsRat(x) /\ IsRat(y) THEN REq(x, y) ELSE ~IsRat(x) /\ ~IsRat(y)
Unit(x) == ~IsRat(x) \/ (RLe(RI(0), x) /\ RLe(x, RI(1)))
Laws ==
  LET A == Grams(s, 2) B == Grams(t, 2) IN
  /\ Unit(Jaccard(A, B)) /\ Unit(Overlap(A, B)) /\ Unit(Dice(A, B))
  /\ Is(Jaccard(A, B), Jaccard(B, A)) /\ Is(Dice(A, B), Dice(B, A)) /\ Is(Overlap(A, B), Overlap(B, A))
  /\ Is(Tversky(A, B, RI(1), RI(1)), Jaccard(A, B))
  /\ Is(Tversky(A, B, RQ(1, 2), RQ(1, 2)), Dice(A, B))
  /\ (s = t /\ s # <<>>) => Is(Jaccard(A, B), RI(1)) /\ Is(Dice(A, B), RI(1)) /\ Is(Overlap(A, B), RI(1))
  /\ IsRat(Jaccard(A, B)) => RLe(Jaccard(A, B), Dice(A, B))
  /\ Len(Utf8(s)) >= Len(s)
=============================================================================
