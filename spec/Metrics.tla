------------------------------ MODULE Metrics ------------------------------
(***************************************************************************)
(* Regression error, ranking, fairness, population stability and weight of *)
(* evidence, by their definitions on exact numbers.                        *)
(***************************************************************************)
EXTENDS Binary, TLC

Mean(s) == RDiv(RSum(s), RI(Len(s)))
VMean(s) == IF Len(s) = 0 THEN Null ELSE VR(Mean(s))
Sorted(s) == SortSeq(s, LAMBDA x, y : RLt(x, y))
Median(s) == LET S == Sorted(s) n == Len(s) IN
             IF n % 2 = 1 THEN S[(n + 1) \div 2] ELSE RDiv(RAdd(S[n \div 2], S[(n \div 2) + 1]), RI(2))
MaxOf(s) == LET S == Sorted(s) IN S[Len(s)]
Diffs(A, P) == Eager([i \in 1..Len(A) |-> RSub(A[i], P[i])])
Abs(s) == Eager([i \in 1..Len(s) |-> RAbs(s[i])])
Sq(s) == Eager([i \in 1..Len(s) |-> RMul(s[i], s[i])])
Centre(s) == LET m == Mean(s) IN Eager([i \in 1..Len(s) |-> RSub(s[i], m)])

SsRes(A, P) == RSum(Sq(Diffs(A, P)))
SsTot(A) == RSum(Sq(Centre(A)))
(* not defined where the actual values do not vary *)
R2(A, P) == IF RSgn(SsTot(A)) = 0 THEN Open ELSE VSub(VI(1), VQuo(VR(SsRes(A, P)), VR(SsTot(A))))
AdjR2(A, P, p) == LET n == Len(A) IN
  IF RSgn(SsTot(A)) = 0 THEN Open ELSE VSub(VI(1), VQuo(VR(RDiv(SsRes(A, P), RI(n - p))), VR(RDiv(SsTot(A), RI(n - 1)))))
LogCosh1(x) == RAdd(RAbs(x), Ln(RDiv(RAdd(U1, Exp(RMul(RI(-2), RAbs(x)))), RI(2))))
Huber1(x, d) == LET y == RAbs(x) IN
  IF RLe(y, d) THEN RDiv(RMul(y, y), RI(2)) ELSE RMul(d, RSub(y, RDiv(d, RI(2))))
Mape(A, P) == LET q == Eager([i \in 1..Len(A) |-> IF RSgn(A[i]) = 0 THEN Z0 ELSE RAbs(RSub(U1, RDiv(P[i], A[i])))]) IN
              IF \E i \in 1..Len(A) : RSgn(A[i]) = 0 THEN Open ELSE VMean(q)
WMape(A, P) == VQuo(VR(RSum(Abs(Diffs(A, P)))), VR(RSum(Abs(A))))
Smape(A, P) == IF \E i \in 1..Len(A) : RSgn(A[i]) = 0 /\ RSgn(P[i]) = 0 THEN Open
               ELSE VMean(Eager([i \in 1..Len(A) |-> RDiv(RAbs(RSub(A[i], P[i])), RAdd(RAbs(A[i]), RAbs(P[i])))]))
Log1pDiff(A, P) == Eager([i \in 1..Len(A) |-> Ln(RDiv(RAdd(U1, A[i]), RAdd(U1, P[i])))])
Naive(T, f) == Eager([i \in 1..(Len(T) - f) |-> RAbs(RSub(T[i + f], T[i]))])

(***************************************************************************)
(* Discounted cumulative gain: rank r is discounted by 1 / log2(r + 1).    *)
(***************************************************************************)
Discount(r) == SDiv(Ln2, Ln(RI(r + 1)))
Discounts(n, k) == Eager([r \in 1..n |-> IF r > k THEN Z0 ELSE Discount(r)])
ByScore(G) == SortSeq(G, LAMBDA x, y : RLt(y.s, x.s))
Dcg(L, D) == RSum([r \in 1..Len(L) |-> RMul(L[r].v, D[r])])
Ideal(G, D) == Dcg(SortSeq(G, LAMBDA x, y : RLt(y.v, x.v)), D)
(* items with equal scores share the discounts of the ranks they occupy *)
TieDcg(G, D) ==
  LET L == ByScore(G) n == Len(L)
      block(r) == {q \in 1..n : REq(L[q].s, L[r].s)}
      share(r) == LET B == block(r) lo == CHOOSE q \in B : \A u \in B : q <= u c == Cardinality(B) IN
                  RDiv(RSum([t \in 1..c |-> D[lo + t - 1]]), RI(c)) IN
  RSum([r \in 1..n |-> RMul(L[r].v, share(r))])
(* the order among equal scores is not specified: it matters where their gains differ *)
Unordered(G) == \E i, j \in 1..Len(G) : REq(G[i].s, G[j].s) /\ ~REq(G[i].v, G[j].v)
Ndcg1(G, k, ties) ==
  LET D == Discounts(Len(G), k) best == Ideal(G, D) IN
  IF RSgn(best) = 0 THEN Z0 ELSE RDiv(IF ties THEN TieDcg(G, D) ELSE Dcg(ByScore(G), D), best)

(***************************************************************************)
(* Binning.  A value belongs to the first right-closed bin (b-, b] that    *)
(* reaches it; above the last break there is one more, unbounded bin.      *)
(***************************************************************************)
BinOf(B, x) == LET S == {j \in 1..Len(B) : RLe(x, B[j])} IN IF S = {} THEN Len(B) + 1 ELSE CHOOSE j \in S : \A i \in S : j <= i
CountIn(X, B, j) == Cardinality({i \in 1..Len(X) : BinOf(B, X[i]) = j})
(* quantile i/k of the sorted values, interpolated linearly *)
QRank(n, i, k) == RQ(i * (n - 1), k)
Quantile(S, i, k) ==
  LET r == QRank(Len(S), i, k) lo == RFloor(r) f == RSub(r, RI(lo)) IN
  IF RSgn(f) = 0 THEN S[lo + 1] ELSE RAdd(S[lo + 1], RMul(f, RSub(S[lo + 2], S[lo + 1])))
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) < 2 THEN s ELSE LET t == Dedup(SubSeq(s, 1, Len(s) - 1)) IN IF REq(t[Len(t)], s[Len(s)]) THEN t ELSE Append(t, s[Len(s)])
QBreaks(X, k) == LET S == Sorted(X) IN Dedup(Eager([i \in 1..(k - 1) |-> Quantile(S, i, k)]))
(* a break that is interpolated, inexactly, onto a value: the side this value falls on is not specified *)
Dyadic(k) == k \in {2, 4, 8, 16, 32}
Touchy(X, Y, k) ==
  LET S == Sorted(X) n == Len(S)
      plateau(i) == LET lo == RFloor(QRank(n, i, k)) a == IF lo = 0 THEN 1 ELSE lo b == IF lo + 2 > n THEN n ELSE lo + 2 IN REq(S[a], S[b]) IN
  ~Dyadic(k) /\ \E i \in 1..(k - 1) : ~plateau(i) /\ LET q == Quantile(S, i, k) IN (\E j \in 1..n : REq(S[j], q)) \/ (\E j \in 1..Len(Y) : REq(Y[j], q))

Part(c, n) == RMax(RQ(c, n), RQ(1, 10000))
PsiTerm(b, a) == IF REq(b, a) THEN Z0 ELSE RMul(RSub(b, a), Ln(RDiv(b, a)))
(* one report row per bin of B: shares of the baseline X and of the new values Y *)
PsiRow(X, Y, B, j) ==
  LET b == Part(CountIn(X, B, j), Len(X)) a == Part(CountIn(Y, B, j), Len(Y)) IN
  [brk |-> IF j > Len(B) THEN Inf ELSE VR(B[j]), b |-> b, a |-> a, psi |-> PsiTerm(b, a)]
PsiRows(X, Y, B) == Eager([j \in 1..(Len(B) + 1) |-> PsiRow(X, Y, B, j)])
(* bins without baseline values join the next one above, and the last bin is unbounded *)
PsiBreaks(X, k) ==
  LET B == QBreaks(X, k) S == SelectSeq(Eager([j \in 1..(Len(B) + 1) |-> j]), LAMBDA j : CountIn(X, B, j) > 0) IN
  Eager([m \in 1..(Len(S) - 1) |-> B[S[m]]])
Total(rows) == RSum([j \in 1..Len(rows) |-> rows[j].psi])

(* weight of evidence of a class with g goods and b bads, of G and B overall *)
GoodPct(g, G) == RDiv(RAdd(g, U1), RAdd(G, RI(2)))
Woe(g, b, G, B) == Ln(RDiv(GoodPct(g, G), GoodPct(b, B)))
Iv(g, b, G, B) == RMul(RSub(GoodPct(g, G), GoodPct(b, B)), Woe(g, b, G, B))
=============================================================================
