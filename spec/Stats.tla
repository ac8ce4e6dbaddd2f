------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Statistics of samples: tests, location and association, by definition.  *)
(***************************************************************************)
EXTENDS Metrics

Var(s, ddof) == RDiv(RSum(Sq(Centre(s))), RI(Len(s) - ddof))
Dot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])
Square(x) == RMul(x, x)

(***************************************************************************)
(* Student's t: tail of the alternative, alt in {"less","greater","two"}.  *)
(***************************************************************************)
TTail(t, df, alt) == CASE alt = "greater" -> StudentSf(t, df) [] alt = "less" -> StudentSf(RNeg(t), df)
                       [] OTHER -> RMul(RI(2), StudentSf(RAbs(t), df))
(* diff / sqrt(v), where v > 0 *)
TTest(diff, v, df, alt) == LET t == RDiv(diff, Sqrt(v)) IN [stat |-> t, p |-> TTail(t, df, alt)]
OneSample(s, mu, alt) == LET n == Len(s) IN TTest(RSub(Mean(s), mu), RDiv(Var(s, 1), RI(n)), RI(n - 1), alt)
(* two samples of n values each *)
Pooled(m1, m2, v1, v2, n, alt) == TTest(RSub(m1, m2), RDiv(RAdd(v1, v2), RI(n)), RI(2 * n - 2), alt)
WelchDf(a, b, n1, n2) == RDiv(Square(RAdd(a, b)), RAdd(RDiv(Square(a), RI(n1 - 1)), RDiv(Square(b), RI(n2 - 1))))
Welch(m1, m2, v1, v2, n1, n2, alt) == LET a == RDiv(v1, RI(n1)) b == RDiv(v2, RI(n2)) IN
  TTest(RSub(m1, m2), RAdd(a, b), WelchDf(a, b, n1, n2), alt)

(***************************************************************************)
(* Analysis of variance of the groups GS (a sequence of samples).          *)
(***************************************************************************)
RECURSIVE Concat(_)
Concat(GS) == IF GS = <<>> THEN <<>> ELSE GS[1] \o Concat(Tail(GS))
SsBetween(GS) == LET m == Mean(Concat(GS)) IN RSum([g \in 1..Len(GS) |-> RMul(RI(Len(GS[g])), Square(RSub(Mean(GS[g]), m)))])
SsWithin(GS) == RSum([g \in 1..Len(GS) |-> RSum(Sq(Centre(GS[g])))])
Anova(GS) == LET k == Len(GS) n == Len(Concat(GS)) f == RDiv(RDiv(SsBetween(GS), RI(k - 1)), RDiv(SsWithin(GS), RI(n - k))) IN
             [stat |-> f, p |-> FisherSf(f, RI(k - 1), RI(n - k))]

(***************************************************************************)
(* Pearson's chi-square of a contingency table of two columns of labels.   *)
(***************************************************************************)
Labels(s) == {s[i] : i \in 1..Len(s)}
Cell(s, t, a, b) == Cardinality({i \in 1..Len(s) : s[i] = a /\ t[i] = b})
Times(s, a) == Cardinality({i \in 1..Len(s) : s[i] = a})
Expected(s, t, a, b) == RQ(Times(s, a) * Times(t, b), Len(s))
ChiStat(s, t) == FoldSet(LAMBDA a, acc : RAdd(acc, FoldSet(LAMBDA b, acc2 : LET x == Expected(s, t, a, b) IN RAdd(acc2, RDiv(Square(RSub(RI(Cell(s, t, a, b)), x)), x)),
                                                           Z0, Labels(t))), Z0, Labels(s))
ChiDof(s, t) == (Cardinality(Labels(s)) - 1) * (Cardinality(Labels(t)) - 1)

(***************************************************************************)
(* Kolmogorov-Smirnov distance of two samples and its threshold.           *)
(***************************************************************************)
Ecdf(s, x) == RQ(Cardinality({i \in 1..Len(s) : RLe(s[i], x)}), Len(s))
KsStat(s, t) == LET u == s \o t IN MaxOf(Eager([i \in 1..Len(u) |-> RAbs(RSub(Ecdf(s, u[i]), Ecdf(t, u[i])))]))
KsThreshold(n, m, alpha) == Sqrt(RMul(RDiv(RNeg(Ln(RDiv(alpha, RI(2)))), RI(2)), RQ(n + m, n * m)))

(***************************************************************************)
(* Mann-Whitney: how often a value of s exceeds one of t, ties half; the   *)
(* p-value by the normal approximation, corrected for ties and continuity. *)
(***************************************************************************)
Wins(s, t) == RSum([i \in 1..Len(s) |-> RQ(2 * Cardinality({j \in 1..Len(t) : RLt(t[j], s[i])}) + Cardinality({j \in 1..Len(t) : REq(t[j], s[i])}), 2)])
(* sum of c^3 - c over the values occurring c times: each occurrence contributes c^2 - 1 *)
TieSum(u) == RSum([i \in 1..Len(u) |-> LET c == Cardinality({j \in 1..Len(u) : REq(u[j], u[i])}) IN RI(c * c - 1)])
NormalSf(z) == NormalCdf(RNeg(z))
MannWhitney(s, t, alt) ==
  LET n1 == Len(s) n2 == Len(t) n == n1 + n2 u1 == Wins(s, t) u2 == RSub(RI(n1 * n2), u1) mu == RQ(n1 * n2, 2)
      var == RMul(RQ(n1 * n2, 12), RSub(RI(n + 1), RDiv(TieSum(s \o t), RI(n * (n - 1)))))
      u == CASE alt = "greater" -> u1 [] alt = "less" -> u2 [] OTHER -> RMax(u1, u2)
      z == RDiv(RSub(RSub(u, mu), RQ(1, 2)), Sqrt(var)) sf == NormalSf(z) IN
  [stat |-> u1, p |-> IF RSgn(var) = 0 THEN U1 ELSE IF alt = "two" THEN RMin(U1, RMul(RI(2), sf)) ELSE sf]

(***************************************************************************)
(* D'Agostino and Pearson's omnibus test of normality.                     *)
(***************************************************************************)
Moment(s, k) == LET c == Centre(s) IN RDiv(RSum([i \in 1..Len(s) |-> RPow(c[i], k)]), RI(Len(s)))
(* real cube root *)
Cbrt(x) == IF RSgn(x) = 0 THEN Z0 ELSE RMul(RI(RSgn(x)), Exp(RDiv(Ln(RAbs(x)), RI(3))))
SkewZ(s) ==
  LET n == RI(Len(s)) p(k) == RAdd(n, RI(k)) m2 == Moment(s, 2)
      skew == RDiv(Moment(s, 3), RMul(m2, Sqrt(m2)))
      y == RMul(skew, Sqrt(RDiv(RMul(p(1), p(3)), RMul(RI(6), p(-2)))))
      beta2 == RDiv(RMul(RMul(RI(3), RSub(RAdd(Square(n), RMul(RI(27), n)), RI(70))), RMul(p(1), p(3))), RMul(RMul(p(-2), p(5)), RMul(p(7), p(9))))
      w2 == RSub(Sqrt(RMul(RI(2), RSub(beta2, U1))), U1)
      alpha == Sqrt(RDiv(RI(2), RSub(w2, U1)))
      t == RDiv(y, alpha) IN
  \* asinh(y / alpha) / sqrt(ln(w)), w = sqrt(w2)
  RDiv(RMul(RI(RSgn(t)), Ln(RAdd(RAbs(t), Sqrt(RAdd(Square(t), U1))))), Sqrt(RDiv(Ln(w2), RI(2))))
KurtTerms(s) ==
  LET n == RI(Len(s)) p(k) == RAdd(n, RI(k)) m2 == Moment(s, 2) b2 == RDiv(Moment(s, 4), Square(m2))
      e == RDiv(RMul(RI(3), p(-1)), p(1))
      var == RDiv(RMul(RMul(RI(24), n), RMul(p(-2), p(-3))), RMul(Square(p(1)), RMul(p(3), p(5))))
      x == RDiv(RSub(b2, e), Sqrt(var))
      rb == RMul(RDiv(RMul(RI(6), RAdd(RSub(Square(n), RMul(RI(5), n)), RI(2))), RMul(p(7), p(9))),
                 Sqrt(RDiv(RMul(RI(6), RMul(p(3), p(5))), RMul(n, RMul(p(-2), p(-3))))))
      a == RAdd(RI(6), RMul(RDiv(RI(8), rb), RAdd(RDiv(RI(2), rb), Sqrt(RAdd(U1, RDiv(RI(4), Square(rb)))))))
      t == RDiv(RI(2), RMul(RI(9), a))
      denom == RAdd(U1, RMul(x, Sqrt(RDiv(RI(2), RSub(a, RI(4)))))) IN
  [a |-> a, t |-> t, d |-> denom]
KurtWith(q, d) == VR(RDiv(RSub(RSub(U1, q.t), Cbrt(RDiv(RSub(U1, RDiv(RI(2), q.a)), d))), Sqrt(q.t)))
KurtZ(s) == LET q == KurtTerms(s) IN IF RSgn(q.d) = 0 THEN NaN ELSE KurtWith(q, q.d)
Omnibus(s, k) == IF ~IsNum(k) THEN [stat |-> NaN, p |-> NaN]
                 ELSE LET q == RAdd(Square(SkewZ(s)), Square(k.v)) IN [stat |-> VR(q), p |-> VR(Exp(RNeg(RDiv(q, RI(2)))))]
NormalTest(s) == Omnibus(s, KurtZ(s))
(* what the implementation is known to answer when the kurtosis lies so low that the denominator is negative: its sign is lost *)
LowKurtosis(s) == RSgn(KurtTerms(s).d) < 0
NormalTestUnsigned(s) == Omnibus(s, LET q == KurtTerms(s) IN KurtWith(q, RAbs(q.d)))

(***************************************************************************)
(* Association.                                                            *)
(***************************************************************************)
Sign(a, b) == IF RLt(a, b) THEN -1 ELSE IF RLt(b, a) THEN 1 ELSE 0
Pairs(n) == {<<i, j>> \in (1..n) \X (1..n) : i < j}
(* tau-b over comparable values: c compares two positions of a column *)
TauB(n, cx(_, _), cy(_, _)) ==
  LET P == Pairs(n) s == FoldSet(LAMBDA q, acc : acc + cx(q[1], q[2]) * cy(q[1], q[2]), 0, P)
      a == Cardinality({q \in P : cx(q[1], q[2]) # 0}) b == Cardinality({q \in P : cy(q[1], q[2]) # 0}) IN
  IF a * b = 0 THEN NaN ELSE VR(RDiv(RI(s), Sqrt(RI(a * b))))
(* xi along the order o of the positions (ascending in x): n sum |r' - r| / (2 sum l (n - l)) from 1 *)
AtMost(y, i) == Cardinality({j \in 1..Len(y) : RLe(y[j], y[i])})
NotLess(y, i) == Cardinality({j \in 1..Len(y) : RLe(y[i], y[j])})
IAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE ISum(_, _)
ISum(f, k) == IF k = 0 THEN 0 ELSE f[k] + ISum(f, k - 1)
XiAlong(y, o) ==
  LET n == Len(y) R == Eager([i \in 1..n |-> AtMost(y, i)])
      num == ISum(Eager([k \in 1..(n - 1) |-> IAbs(R[o[k + 1]] - R[o[k]])]), n - 1)
      den == ISum(Eager([i \in 1..n |-> LET l == NotLess(y, i) IN l * (n - l)]), n) IN
  IF den = 0 THEN NaN ELSE VR(RSub(U1, RQ(n * num, 2 * den)))
Orders2(x) == LET n == Len(x) IN {o \in [1..n -> 1..n] : (\A i, j \in 1..n : o[i] = o[j] => i = j) /\ \A i \in 1..(n - 1) : RLe(x[o[i]], x[o[i + 1]])}

WMean(x, w) == RDiv(Dot(x, w), RSum(w))
Off(x, m) == Eager([i \in 1..Len(x) |-> RSub(x[i], m)])
WCov(x, y, w) == LET a == Off(x, WMean(x, w)) b == Off(y, WMean(y, w)) IN RDiv(RSum([i \in 1..Len(x) |-> RMul(w[i], RMul(a[i], b[i]))]), RSum(w))
OverRoot(a, b) == IF RSgn(b) = 0 THEN Open ELSE VR(RDiv(a, Sqrt(b)))
WCorr(x, y, w) == OverRoot(WCov(x, y, w), RMul(WCov(x, x, w), WCov(y, y, w)))
WCos(x, y, w) == LET d(s, t) == RSum([i \in 1..Len(s) |-> RMul(w[i], RMul(s[i], t[i]))]) IN OverRoot(d(x, y), RMul(d(x, x), d(y, y)))
Ones(n) == [i \in 1..n |-> U1]
Pearson(x, y) == WCorr(x, y, Ones(Len(x)))
Cosine(x, y) == WCos(x, y, Ones(Len(x)))
MidRank(x) == Eager([i \in 1..Len(x) |-> RQ(2 * Cardinality({j \in 1..Len(x) : RLt(x[j], x[i])}) + Cardinality({j \in 1..Len(x) : REq(x[j], x[i])}) + 1, 2)])
Spearman(x, y) == Pearson(MidRank(x), MidRank(y))
(* biweight: values more than c median deviations away weigh nothing *)
Biweight(x, c) ==
  LET d == Off(x, Median(x)) s == RMul(c, Median(Abs(d))) IN
  Eager([i \in 1..Len(x) |-> LET u == RDiv(d[i], s) IN IF RLt(RAbs(u), U1) THEN RMul(d[i], Square(RSub(U1, Square(u)))) ELSE Z0])
Mad0(x) == RSgn(Median(Abs(Off(x, Median(x))))) = 0
Bicor(x, y, c) == IF Mad0(x) \/ Mad0(y) THEN Open ELSE Cosine(Biweight(x, c), Biweight(y, c))
(* means of positive numbers *)
HMean(x, w) == RDiv(RSum(w), RSum([i \in 1..Len(x) |-> RDiv(w[i], x[i])]))
GMean(x, w) == Exp(RDiv(RSum([i \in 1..Len(x) |-> RMul(w[i], Ln(x[i]))]), RSum(w)))
=============================================================================
