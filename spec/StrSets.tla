------------------------------ MODULE StrSets ------------------------------
(***************************************************************************)
(* Similarities of strings as sets of substrings, nearest words and        *)
(* vocabulary matching.                                                    *)
(***************************************************************************)
EXTENDS EditDistance

(* UTF-8: the byte string of a sequence of characters *)
Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == FlattenSeq([i \in 1..Len(s) |-> Utf8Char(s[i])])

(* the substrings of n bytes; a non-empty shorter string is its own only one *)
Grams(s, n) ==
  LET w == Utf8(s) IN
  IF w = <<>> THEN {} ELSE IF Len(w) < n THEN {w}
  ELSE {SubSeq(w, i, i + n - 1) : i \in 1..Len(w) - n + 1}

Undef == "nan"
(* p / q as a value, undefined for 0 / 0 *)
Ratio(p, q) == IF RSgn(q) = 0 THEN Undef ELSE RDiv(p, q)
C(S) == RI(Cardinality(S))
Jaccard(A, B) == Ratio(C(A \cap B), C(A \cup B))
Overlap(A, B) == Ratio(C(A \cap B), RMin(C(A), C(B)))
Dice(A, B)    == Ratio(RMul(RI(2), C(A \cap B)), RAdd(C(A), C(B)))
Tversky(A, B, al, be) == Ratio(C(A \cap B), RAdd(C(A \cap B), RAdd(RMul(al, C(A \ B)), RMul(be, C(B \ A)))))

(***************************************************************************)
(* Nearest word: scan the column, keeping the first string at the least    *)
(* distance not above the threshold.  d(w) is -1 where undefined.          *)
(***************************************************************************)
Dist(metric, w, x) == IF metric = "lv" THEN Lev(w, x) ELSE IF Len(w) = Len(x) THEN HammingPad(w, x) ELSE -1
NoString == <<-1>>
NearestAmong(col, word, metric, thr) ==
  LET D == [i \in 1..Len(col) |-> IF col[i] = NoString THEN -1 ELSE Dist(metric, col[i], word)]
      Ok == {i \in 1..Len(col) : D[i] >= 0 /\ D[i] <= thr}
  IN  IF Ok = {} THEN NoString
      ELSE col[CHOOSE i \in Ok : \A j \in Ok : D[i] < D[j] \/ (D[i] = D[j] /\ i <= j)]

(* one step of the scan, as a state machine (checked against the above in StrSetsMC) *)
ScanStep(best, x, word, metric, thr) ==       \* best = <<string or none, distance>>
  LET d == IF x = NoString THEN -1 ELSE Dist(metric, x, word) IN
  IF d >= 0 /\ d <= thr /\ (best[1] = NoString \/ d < best[2]) THEN <<x, d>> ELSE best

Sim(metric, s, t) ==
  CASE metric = "lv" -> Norm(Lev(s, t), MaxLen(s, t))
    [] metric = "dlv" -> Norm(DamLev(s, t), MaxLen(s, t))
    [] metric = "osa" -> Norm(Osa(s, t), MaxLen(s, t))
    [] metric = "jw" -> JaroWinkler(s, t, RQ(1, 10))
=============================================================================
