------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* Features of a series in row order, by definition.  s is a sequence of   *)
(* rationals unless it is said to be of labels.                            *)
(***************************************************************************)
EXTENDS Stats

MinOf(s) == RNeg(MaxOf(Eager([i \in 1..Len(s) |-> RNeg(s[i])])))

Lag(s, k) == [i \in 1..(Len(s) - k) |-> s[i + k]]
RECURSIVE ISeq(_, _)
ISeq(f, k) == IF k = 0 THEN 0 ELSE f[k] + ISeq(f, k - 1)

(***************************************************************************)
(* Runs of equal labels, in order: <<label, length>>.                      *)
(***************************************************************************)
RECURSIVE Runs(_)
Runs(s) == IF s = <<>> THEN <<>>
           ELSE LET k == CHOOSE k \in 1..Len(s) : (\A i \in 1..k : s[i] = s[1]) /\ (k = Len(s) \/ s[k + 1] # s[1]) IN
                <<<<s[1], k>>>> \o Runs(SubSeq(s, k + 1, Len(s)))
RunsOf(s, v) == LET q == SelectSeq(Runs(s), LAMBDA r : r[1] = v) IN [i \in 1..Len(q) |-> q[i][2]]
RECURSIVE IMax(_)
IMax(q) == IF q = <<>> THEN 0 ELSE LET m == IMax(Tail(q)) IN IF q[1] > m THEN q[1] ELSE m
Longest(s, v) == IMax(RunsOf(s, v))
MeanRun(s, v) == LET q == RunsOf(s, v) IN IF q = <<>> THEN Z0 ELSE RQ(ISeq(q, Len(q)), Len(q))

(***************************************************************************)
(* Lempel-Ziv parsing: each phrase is the shortest that has not occurred   *)
(* as a phrase; a last incomplete phrase does not count.                   *)
(***************************************************************************)
RECURSIVE LzLoop(_, _, _, _)
LzLoop(b, i, from, seen) ==
  IF i > Len(b) THEN seen
  ELSE LET w == SubSeq(b, from, i) IN IF w \in seen THEN LzLoop(b, i + 1, from, seen) ELSE LzLoop(b, i + 1, i + 1, seen \cup {w})
LempelZiv(b) == Cardinality(LzLoop(b, 1, 1, {}))

(***************************************************************************)
(* First digit of a number that is not 0.                                  *)
(***************************************************************************)
RECURSIVE Shift10(_)
Shift10(x) == IF RLt(x, U1) THEN Shift10(IF RLt(x, RDiv(U1, RPow(RI(10), 20))) THEN RMul(x, RPow(RI(10), 20)) ELSE RMul(x, RI(10)))
              ELSE IF RLe(RI(10), x) THEN Shift10(IF RLe(RPow(RI(10), 20), x) THEN RDiv(x, RPow(RI(10), 20)) ELSE RDiv(x, RI(10))) ELSE x
FirstDigit(x) == RFloor(Shift10(RAbs(x)))

(***************************************************************************)
(* Changes, energies, moments of lagged products.                          *)
(***************************************************************************)
MidRange(s) == RDiv(RSub(MaxOf(s), MinOf(s)), RI(2))
SymmRatio(s) == RDiv(RAbs(RSub(Mean(s), Median(s))), RSub(MaxOf(s), MinOf(s)))
Energy(s) == RSum(Sq(s))
Steps(s) == Eager([i \in 1..(Len(s) - 1) |-> RSub(s[i + 1], s[i])])
MeanAbsChange(s) == Mean(Abs(Steps(s)))
TopMean(s, n) == LET q == SortSeq(Abs(s), LAMBDA a, b : RLt(b, a)) IN Mean(SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q)))
C3(s, k) == RDiv(RSum([i \in 1..(Len(s) - 2 * k) |-> RMul(s[i], RMul(s[i + k], s[i + 2 * k]))]), RI(Len(s) - 2 * k))
CidCe2(s) == RSum(Sq(Steps(s)))                          \* the square of the estimate
Reversal(s, k) == Mean([i \in 1..(Len(s) - 2 * k) |-> RMul(s[i + k], RSub(Square(s[i + 2 * k]), Square(s[i])))])
LagMean(s, k) == Mean([i \in 1..(Len(s) - k) |-> RMul(s[i], s[i + k])])
AutoCorr(s, k, ddof) == LET c == Centre(s) IN
                        RDiv(RSum([i \in 1..(Len(s) - k) |-> RMul(c[i], c[i + k])]), RMul(RI(Len(s) - k), Var(s, ddof)))

(***************************************************************************)
(* Entropies of labels.                                                    *)
(***************************************************************************)
EntropyOf(p) == RNeg(RSum([i \in 1..Len(p) |-> RMul(p[i], Ln(p[i]))]))
Counts(s) == FoldSet(LAMBDA a, acc : Append(acc, Times(s, a)), <<>>, Labels(s))
Shares(s) == LET q == Counts(s) IN [i \in 1..Len(q) |-> RQ(q[i], Len(s))]
Entropy(s) == EntropyOf(Shares(s))
Zipped(s, t) == [i \in 1..Len(s) |-> <<s[i], t[i]>>]
CondEntropy(x, y) == RSub(Entropy(Zipped(x, y)), Entropy(y))        \* H(x|y)
(* order pattern of a window: the positions in ascending order of value, ties in order of position *)
Pattern(w) == SortSeq([i \in 1..Len(w) |-> i], LAMBDA i, j : RLt(w[i], w[j]) \/ (REq(w[i], w[j]) /\ i < j))
PatternsOf(s, tau, d) == [t \in 1..(Len(s) - (d - 1) * tau) |-> Pattern([j \in 1..d |-> s[t + (j - 1) * tau]])]
PermEntropy(s, tau, d) == Entropy(PatternsOf(s, tau, d))

(***************************************************************************)
(* Windows and their Chebyshev distances.                                  *)
(***************************************************************************)
Window(s, i, m) == SubSeq(s, i, i + m - 1)
Cheb(s, i, j, m) == MaxOf(Eager([k \in 1..m |-> RAbs(RSub(s[i + k - 1], s[j + k - 1]))]))
Near2(s, i, m, r) == Cardinality({j \in 1..(Len(s) - m + 1) : RLe(Cheb(s, i, j, m), r)})
LogMatch(s, m, r) == LET n == Len(s) - m + 1 IN RDiv(RSum([i \in 1..n |-> Ln(RQ(Near2(s, i, m, r), n))]), RI(n))
ApEn(s, m, r) == RAbs(RSub(LogMatch(s, m + 1, r), LogMatch(s, m, r)))
Matches(s, m, r) == LET n == Len(s) - m + 1 IN ISeq(Eager([i \in 1..n |-> Near2(s, i, m, r)]), n) - n
SampEn(s, m, r) == LET a == Matches(s, m + 1, r) b == Matches(s, m, r) IN
                   IF a = 0 /\ b = 0 THEN NaN ELSE IF a = 0 THEN Inf ELSE VR(Ln(RQ(b, a)))
(* some distance of windows is so close to r that rounding decides *)
Marginal(s, r, band) == \E i, j \in 1..Len(s) : RLe(RAbs(RSub(RAbs(RSub(s[i], s[j])), r)), RMul(band, r))

(***************************************************************************)
(* Windows of a series similar to a query: squared distance below a bound, *)
(* of the values or of the values less their mean over their deviation.    *)
(***************************************************************************)
SqDist(a, b) == RSum(Eager([i \in 1..Len(a) |-> Square(RSub(a[i], b[i]))]))
(* squared distance of standardised windows, exactly: 2(m-1)(1 - correlation) when neither is constant *)
ZDist(q, w) == LET m == RI(Len(q) - 1) IN RMul(RMul(RI(2), m), RSub(U1, WCorr(q, w, Ones(Len(q))).v))
Constant(s) == \A i \in 1..Len(s) : REq(s[i], s[1])
ZSq(q, w) == IF Constant(w) THEN RI(Len(q) - 1) ELSE ZDist(q, w)           \* the floor of the deviation makes a constant window 0
SimDists(q, s, z) == Eager([i \in 1..(Len(s) - Len(q) + 1) |-> IF z THEN ZSq(q, Window(s, i, Len(q))) ELSE SqDist(q, Window(s, i, Len(q)))])

(***************************************************************************)
(* k-nearest-neighbour entropy of points P.                                *)
(***************************************************************************)
Harm(n) == RSum([i \in 1..(n - 1) |-> RQ(1, i)])           \* digamma(n) + Euler's constant
PDist(p, q, metric) == LET d == Abs(Diffs(p, q)) IN IF metric = "inf" THEN MaxOf(d) ELSE RSum(Sq(d))      \* l2: squared
KthAway(P, i, k, metric) == LET q == SortSeq(Eager([j \in 1..Len(P) |-> PDist(P[i], P[j], metric)]), LAMBDA a, b : RLt(a, b)) IN q[k + 1]
(* ln of the volume of the unit ball over 2^d *)
LnBall(d, metric) == IF metric = "inf" THEN Z0
                     ELSE RSub(RSub(RMul(RQ(d, 2), Ln(Pi)), RMul(RI(d), Ln2)), LnGamma(RAdd(U1, RQ(d, 2))))
KnnEntropy(P, k, metric) ==
  LET n == Len(P) d == Len(P[1])
      D == Eager([i \in 1..n |-> KthAway(P, i, k, metric)])
      ln2d(x) == RAdd(Ln2, IF metric = "inf" THEN Ln(x) ELSE RDiv(Ln(x), RI(2))) IN
  IF n <= k THEN NaN ELSE IF \E i \in 1..n : RSgn(D[i]) = 0 THEN NegInf
  ELSE VR(RAdd(RAdd(RSub(Harm(n), Harm(k)), LnBall(d, metric)), RMul(RQ(d, n), RSum([i \in 1..n |-> ln2d(D[i])]))))
(* copula entropy of columns C: of their ranks over their number *)
Ranked(c) == LET r == MidRank(c) IN Eager([i \in 1..Len(c) |-> RDiv(r[i], RI(Len(c)))])
Points(C) == Eager([i \in 1..Len(C[1]) |-> [j \in 1..Len(C) |-> C[j][i]]])
CopulaEntropy(C, k) == LET e == KnnEntropy(Points(Eager([j \in 1..Len(C) |-> Ranked(C[j])])), k, "l2") IN
                       IF IsNum(e) THEN VR(RNeg(e.v)) ELSE IF e = NegInf THEN Inf ELSE e
CondIndep(x, y, z, k) == LET a == CopulaEntropy(<<x, y, z>>, k) b == CopulaEntropy(<<y, z>>, k) c == CopulaEntropy(<<x, z>>, k) IN
                         IF IsNum(a) /\ IsNum(b) /\ IsNum(c) THEN VR(RSub(a.v, RAdd(b.v, c.v))) ELSE Open
TransferEntropy(x, src, lag, k) == LET n == Len(x) - lag IN CondIndep(Lag(x, lag), SubSeq(src, 1, n), SubSeq(x, 1, n), k)
=============================================================================
