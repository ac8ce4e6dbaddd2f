------------------------------- MODULE Plots -------------------------------
(***************************************************************************)
(* What a drawing shows of the data it is given: curves of points, a line  *)
(* with its equation, a distribution with its marks, and thinned clouds.   *)
(***************************************************************************)
EXTENDS Inspect

(***************************************************************************)
(* The ROC curve: from the origin, the threshold falling through the       *)
(* distinct scores.  rows are [a, s, c] as in Binary.                      *)
(***************************************************************************)
RocPoints(R) ==
  LET T == Thresholds(R) n == Len(T) IN
  << <<VI(0), VI(0)>> >> \o Eager([k \in 1..n |-> <<Fpr(R, T[n + 1 - k]), Tpr(R, T[n + 1 - k])>>])
TwoClasses(R) == RSgn(Pos(R)) > 0 /\ RSgn(Neg(R)) > 0
(* the area under a path of points, by trapezoids *)
Area(P) == RSum(Eager([i \in 1..(Len(P) - 1) |-> RMul(RSub(P[i + 1][1].v, P[i][1].v), RDiv(RAdd(P[i + 1][2].v, P[i][2].v), RI(2)))]))

(***************************************************************************)
(* Calibration: of every quantile bin with something in it, the mean score *)
(* and the share of positives, from the lowest bin to the highest.         *)
(***************************************************************************)
Calibration(S, A, k) ==
  LET Q == QBreaks(S, k) n == Len(S)
      mem(j) == SelectSeq([i \in 1..n |-> i], LAMBDA i : BinOf(Q, S[i]) = j)
      bins == SelectSeq([j \in 1..(Len(Q) + 1) |-> j], LAMBDA j : mem(j) # <<>>) IN
  Eager([m \in 1..Len(bins) |-> LET I == mem(bins[m]) IN
    <<Mean(Eager([i \in 1..Len(I) |-> S[I[i]]])), Mean(Eager([i \in 1..Len(I) |-> A[I[i]]]))>>])
(* quantiles that coincide make no k bins *)
Distinct2(S, k) == LET T == Sorted(S) IN \A i \in 1..(k - 2) : ~REq(Quantile(T, i, k), Quantile(T, i + 1, k))

(***************************************************************************)
(* The least-squares line through weighted points.                         *)
(***************************************************************************)
WSum(W, X) == RSum(Eager([i \in 1..Len(W) |-> RMul(W[i], X[i])]))
Times2(X, Y) == Eager([i \in 1..Len(X) |-> RMul(X[i], Y[i])])
Less(X, m) == Eager([i \in 1..Len(X) |-> RSub(X[i], m)])
Line(X, Y, W, bias) ==
  LET sw == RSum(W) IN
  IF RSgn(sw) = 0 THEN [k |-> "open"]
  ELSE LET mx == IF bias THEN RDiv(WSum(W, X), sw) ELSE Z0 my == IF bias THEN RDiv(WSum(W, Y), sw) ELSE Z0
           DX == Less(X, mx) DY == Less(Y, my) den == WSum(W, Times2(DX, DX)) IN
       IF RSgn(den) = 0 THEN [k |-> "open"]
       ELSE LET b == RDiv(WSum(W, Times2(DX, DY)), den) IN [k |-> "line", b |-> b, a |-> RSub(my, RMul(b, mx))]
At(L, x) == RAdd(RMul(L.b, x), L.a)
Resid(L, X, Y) == Eager([i \in 1..Len(X) |-> RSub(Y[i], At(L, X[i]))])
RSquared(L, X, Y) ==
  LET R == Resid(L, X, Y) D == Less(Y, Mean(Y)) t == RSum(Times2(D, D)) IN
  IF RSgn(t) = 0 THEN Open ELSE VR(RSub(U1, RDiv(RSum(Times2(R, R)), t)))

(***************************************************************************)
(* A cloud of points is thinned to a limit: a part of it, as a bag.        *)
(***************************************************************************)
Occurs(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
PartOf(p, q) == \A i \in 1..Len(p) : Occurs(p, p[i]) <= Occurs(q, p[i])
ThinOk(p, q, limit) == PartOf(p, q) /\ Len(p) = (IF limit < Len(q) THEN limit ELSE Len(q))

(***************************************************************************)
(* A distribution: the cells shown, and the marks on them.                 *)
(***************************************************************************)
Bad(x) == x \in {"null", "nan", "inf", "-inf"}
BadShare(V) == IF V = <<>> THEN Open ELSE VR(RQ(Cardinality({i \in 1..Len(V) : Bad(V[i])}), Len(V)))
(* the rows within the bounds asked for, "" for none *)
Inside(x, lo, hi) == ~Bad(x) /\ (lo = "" \/ RLe(RP(lo), RP(x))) /\ (hi = "" \/ RLe(RP(x), RP(hi)))

(***************************************************************************)
(* Calls that make sense; any other has to be refused.                     *)
(***************************************************************************)
AllLen(L, n) == \A i \in 1..Len(L) : L[i] = n
LegalCurves(c) ==
  /\ IF c.one >= 0 THEN c.name ELSE c.many /\ c.nnames >= 0 /\ Len(c.lens) = c.nnames
  /\ IF c.one >= 0 THEN c.one = c.target ELSE AllLen(c.lens, c.target)
LegalDist(c) == c.bins > 2 /\ (c.over => c.df) /\ (c.col => c.df) /\ (~c.col => ~c.over)
LegalPca(c) == c.nfeat >= 2 /\ c.dim = 2
Legal(c) == CASE c.fn \in {"roc", "cal"} -> LegalCurves(c) [] c.fn = "dist" -> LegalDist(c) [] c.fn = "pca" -> LegalPca(c)
=============================================================================
