------------------------------ MODULE StatsMC ------------------------------
(***************************************************************************)
(* Rows <<x, y>> arrive one at a time and the statistics that can be kept  *)
(* up to date by one comparison with every earlier row are: wins of x over *)
(* y (Mann-Whitney), concordance of pairs (Kendall), sums of powers.  In   *)
(* every state they agree with the definitions, and the laws relating the  *)
(* tests to one another hold.                                              *)
(***************************************************************************)
EXTENDS Stats, SequencesExt
CONSTANTS N, Vals, Ascending      \* Ascending: only histories in ascending order
VARIABLES rows, inc
n == Len(rows)
X == [i \in 1..n |-> RI(rows[i][1])]
Y == [i \in 1..n |-> RI(rows[i][2])]
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CountRows(P(_)) == Cardinality({i \in 1..n : P(rows[i])})
RECURSIVE SumRows(_, _)
SumRows(F(_), k) == IF k = 0 THEN 0 ELSE F(rows[k]) + SumRows(F, k - 1)
Init == rows = <<>> /\ inc = [w2 |-> 0, conc |-> 0, untx |-> 0, unty |-> 0, sx |-> 0, sxx |-> 0]
(* w2: twice the wins of x over y;  untx: pairs of rows not tied in x *)
Next ==
  /\ n < N
  /\ \E a, b \in Vals :
       /\ (Ascending /\ n > 0) => 16 * rows[n][1] + rows[n][2] <= 16 * a + b
       /\ rows' = Append(rows, <<a, b>>)
       /\ inc' = [w2 |-> inc.w2 + SumRows(LAMBDA r : (1 + Sgn(a, r[2])) + (1 + Sgn(r[1], b)), n) + 1 + Sgn(a, b),
                  conc |-> inc.conc + SumRows(LAMBDA r : Sgn(a, r[1]) * Sgn(b, r[2]), n),
                  untx |-> inc.untx + CountRows(LAMBDA r : r[1] # a), unty |-> inc.unty + CountRows(LAMBDA r : r[2] # b),
                  sx |-> inc.sx + a, sxx |-> inc.sxx + a * a]
Eps == RDiv(U1, RPow(RI(2), 80))
Close(x, y) == RLe(RAbs(RSub(x, y)), Eps)
CloseV(x, y) == x.k = y.k /\ (x.k = "num" => Close(x.v, y.v))
Prob(p) == RLe(RNeg(Eps), p) /\ RLe(p, RAdd(U1, Eps))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Scale(s, a, b) == [i \in 1..Len(s) |-> RAdd(RMul(RI(a), s[i]), RI(b))]
Const(s) == \A i \in 1..Len(s) : REq(s[i], s[1])

(* Mann-Whitney: kept up to date, from ranks, and mirrored *)
RankSumU == LET u == MidRank(X \o Y) IN RSub(RSum([i \in 1..n |-> u[i]]), RQ(n * (n + 1), 2))
Ranksum ==
  n > 0 => /\ REq(Wins(X, Y), RQ(inc.w2, 2)) /\ REq(RankSumU, RQ(inc.w2, 2)) /\ REq(RAdd(Wins(X, Y), Wins(Y, X)), RI(n * n))
           /\ LET g == MannWhitney(X, Y, "greater") l == MannWhitney(X, Y, "less") t == MannWhitney(X, Y, "two") g2 == MannWhitney(Y, X, "greater") IN
              \* the two tails overlap by the continuity correction
              /\ Prob(g.p) /\ Prob(l.p) /\ Prob(t.p) /\ Close(g2.p, l.p) /\ Close(t.p, MannWhitney(Y, X, "two").p)
              /\ Const(X \o Y) \/ RLe(U1, RAdd(RAdd(g.p, l.p), Eps))
(* Kendall: every order of the rows, every monotone change of either column *)
Tau(s, t) == TauB(n, LAMBDA i, j : Sign(s[i], s[j]), LAMBDA i, j : Sign(t[i], t[j]))
Kendall ==
  n > 1 => LET k == Tau(X, Y) IN
    /\ inc.untx * inc.unty = 0 <=> k = NaN
    /\ k # NaN => REq(Square(k.v), RQ(inc.conc * inc.conc, inc.untx * inc.unty)) \/ Close(Square(k.v), RQ(inc.conc * inc.conc, inc.untx * inc.unty))
    /\ CloseV(k, Tau(Y, X)) /\ CloseV(k, Tau(Rev(X), Rev(Y))) /\ CloseV(k, Tau([i \in 1..n |-> RPow(X[i], 3)], Y))
    /\ k # NaN => CloseV(VR(RNeg(k.v)), Tau(Scale(X, -1, 0), Y)) /\ RLe(RAbs(k.v), RAdd(U1, Eps))
(* Xi: 1 - o(1) when y is a function of x that is one to one, and no order of ties leaves the bounds *)
Xi ==
  n > 1 => \A o \in Orders2(X) : LET v == XiAlong(Y, o) IN
    /\ v = NaN <=> Const(Y)
    /\ v # NaN => /\ RLe(v.v, U1) /\ REq(XiAlong([i \in 1..n |-> RAdd(RPow(Y[i], 3), RI(2))], o).v, v.v)
    /\ (\A i, j \in 1..n : i # j => ~REq(X[i], X[j]) /\ ~REq(Y[i], Y[j])) /\ (\A i, j \in 1..n : RLt(X[i], X[j]) => RLt(Y[i], Y[j]))
         => REq(v.v, RSub(U1, RQ(3, n + 1)))
(* t, Welch and F *)
TTests ==
  n > 1 => LET one(a) == OneSample(X, U1, a) m1 == Mean(X) m2 == Mean(Y) v1 == Var(X, 1) v2 == Var(Y, 1) IN
    /\ REq(Var(X, 1), RDiv(RSub(RI(inc.sxx), RQ(inc.sx * inc.sx, n)), RI(n - 1)))
    /\ ~Const(X) => /\ Close(RAdd(one("greater").p, one("less").p), U1) /\ Prob(one("two").p)
                    /\ Close(one("two").p, RMul(RI(2), RMin(one("greater").p, one("less").p)))
    /\ ~Const(X) \/ ~Const(Y) =>
         LET p(a) == Pooled(m1, m2, v1, v2, n, a) w(a) == Welch(m1, m2, v1, v2, n, n, a) w2(a) == Welch(m2, m1, v2, v1, n, n, a) IN
         /\ Close(RAdd(w("greater").p, w("less").p), U1) /\ Close(w("less").p, w2("greater").p) /\ Close(w("two").p, w2("two").p)
         /\ Close(w("two").stat, p("two").stat)
         \* two groups: F is the square of the pooled t, with the same p-value
         /\ ~Const(X) \/ ~Const(Y) => LET f == Anova(<<X, Y>>) IN Close(f.stat, Square(p("two").stat)) /\ Close(f.p, p("two").p)
    /\ REq(RSum(Sq(Centre(X \o Y))), RAdd(SsBetween(<<X, Y>>), SsWithin(<<X, Y>>)))
LX == [i \in 1..n |-> rows[i][1]]
LY == [i \in 1..n |-> rows[i][2]]
ChiSquare ==
  n > 0 => /\ REq(ChiStat(LX, LY), ChiStat(LY, LX)) /\ RSgn(ChiStat(LX, LY)) >= 0
           /\ RLe(ChiStat(LX, LY), RI(n * ((IF Cardinality(Labels(LX)) < Cardinality(Labels(LY)) THEN Cardinality(Labels(LX)) ELSE Cardinality(Labels(LY))) - 1)))
           /\ REq(ChiStat(LX, LX), RI(n * (Cardinality(Labels(LX)) - 1)))
           /\ REq(FoldSet(LAMBDA a, s : RAdd(s, FoldSet(LAMBDA b, t : RAdd(t, Expected(LX, LY, a, b)), Z0, Labels(LY))), Z0, Labels(LX)), RI(n))
KolmogorovSmirnov ==
  n > 0 => LET d == KsStat(X, Y) IN
           /\ REq(d, KsStat(Y, X)) /\ RSgn(d) >= 0 /\ RLe(d, U1) /\ REq(d, KsStat(Rev(X), Y)) /\ REq(d, KsStat(Scale(X, 3, 5), Scale(Y, 3, 5)))
           /\ REq(KsStat(X, X), Z0)
           /\ REq(d, U1) => LET lo(s, t) == \A i, j \in 1..n : RLt(s[i], t[j]) IN lo(X, Y) \/ lo(Y, X)
(* weighted statistics: whole weights are repetitions; correlation ignores scale and offset *)
Rep == [i \in 1..n |-> RI(rows[i][2] + 1)]
RECURSIVE Repeat(_, _)
Repeat(s, k) == IF k > Len(s) THEN <<>> ELSE [j \in 1..(rows[k][2] + 1) |-> s[k]] \o Repeat(s, k + 1)
Weighted ==
  n > 0 => LET e == Repeat(X, 1) IN
           /\ REq(WMean(X, Rep), Mean(e)) /\ REq(WCov(X, X, Rep), Var(e, 0))
           /\ REq(WCov(X, Y, Rep), WCov(Y, X, Rep)) /\ REq(WCov(Scale(X, 2, 3), Y, Rep), RMul(RI(2), WCov(X, Y, Rep)))
           /\ LET c == Pearson(X, Y) d == Pearson(Scale(X, -2, 3), Y) IN
              /\ c = Open <=> Const(X) \/ Const(Y)
              /\ c # Open => RLe(RAbs(c.v), RAdd(U1, Eps)) /\ Close(c.v, RNeg(d.v)) /\ CloseV(c, Pearson(Y, X))
           /\ LET pos == Scale(X, 1, 1) h == HMean(pos, Rep) g == GMean(pos, Rep) a == WMean(pos, Rep) IN RLe(h, RAdd(g, Eps)) /\ RLe(g, RAdd(a, Eps))
           /\ LET b == Bicor(X, Y, RI(9)) IN b # Open => RLe(RAbs(b.v), RAdd(U1, Eps)) /\ CloseV(b, Bicor(Y, X, RI(9))) /\ CloseV(b, Bicor(Scale(X, 2, 1), Y, RI(9)))
=============================================================================
