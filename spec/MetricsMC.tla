----------------------------- MODULE MetricsMC -----------------------------
(***************************************************************************)
(* Rows arrive one at a time and running sums are kept.  In every state    *)
(* the metrics computed from the sums are those of the definitions, and    *)
(* the laws relating the metrics hold.  The same rows are also read as a   *)
(* ranked list and as two samples of one variable.                         *)
(***************************************************************************)
EXTENDS Metrics, SequencesExt
CONSTANTS N, Vals
VARIABLES rows, sum
G(s) == RP(s)
S(r) == RStr(r)
A == [i \in 1..Len(rows) |-> RI(rows[i][1])]
P == [i \in 1..Len(rows) |-> RI(rows[i][2])]
n == Len(rows)
Init == rows = <<>> /\ sum = [abs |-> "0", sq |-> "0", a |-> "0", aa |-> "0", max |-> "0"]
Next == /\ n < N
        /\ \E a, p \in Vals :
             LET d == RI(a - p) IN
             /\ rows' = Append(rows, <<a, p>>)
             /\ sum' = [abs |-> S(RAdd(G(sum.abs), RAbs(d))), sq |-> S(RAdd(G(sum.sq), RMul(d, d))), a |-> S(RAdd(G(sum.a), RI(a))),
                        aa |-> S(RAdd(G(sum.aa), RI(a * a))), max |-> S(RMax(G(sum.max), RAbs(d)))]
(* one pass over the rows gives the two-pass definitions *)
TotFromSums == RSub(G(sum.aa), RDiv(RMul(G(sum.a), G(sum.a)), RI(n)))
OnePass == n > 0 => /\ REq(SsTot(A), TotFromSums) /\ REq(SsRes(A, P), G(sum.sq))
                    /\ REq(RSum(Abs(Diffs(A, P))), G(sum.abs)) /\ REq(MaxOf(Abs(Diffs(A, P))), G(sum.max))
Bounds ==
  n > 0 => LET d == Diffs(A, P) mae == Mean(Abs(d)) mse == Mean(Sq(d)) s == Smape(A, P) IN
           /\ RLe(RMul(mae, mae), mse) /\ RLe(mse, RMul(MaxOf(Abs(d)), MaxOf(Abs(d)))) /\ RLe(mae, MaxOf(Abs(d)))
           /\ IsNum(s) => RLe(Z0, s.v) /\ RLe(s.v, U1)
           /\ IsNum(R2(A, P)) => RLe(R2(A, P).v, U1)
           /\ RLe(Median(Abs(Centre(A))), MaxOf(Abs(Centre(A))))
           \* Huber loss lies below both of the losses it joins, and meets them
           /\ \A i \in 1..n : LET h == Huber1(d[i], U1) IN RLe(h, RDiv(RMul(d[i], d[i]), RI(2))) /\ RLe(RSub(RAbs(d[i]), RQ(1, 2)), h)
           /\ \A i \in 1..n : LET l == LogCosh1(d[i]) IN RLe(RSub(RAbs(d[i]), Ln2), RAdd(l, RDiv(U1, RPow(RI(2), 90)))) /\ RLe(l, RAbs(d[i]))
(* as a ranked list: row = <<relevance, score>> *)
L == [i \in 1..n |-> [v |-> RI(rows[i][1]), s |-> RI(rows[i][2])]]
Perms == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
Orders == {f \in Perms : \A i \in 1..(n - 1) : RLe(L[f[i + 1]].s, L[f[i]].s)}
Along(f) == [i \in 1..n |-> L[f[i]]]
SetSum(T, F(_)) == LET q == SetToSeq(T) IN RSum([i \in 1..Len(q) |-> F(q[i])])
Eps == RDiv(U1, RPow(RI(2), 90))
Close(x, y) == RLe(RAbs(RSub(x, y)), Eps)
Ranking ==
  n > 1 => \A k \in {1, 2, n} :
    LET D == Discounts(n, k) best == Ideal(L, D) IN
    \* no order does better than the ideal one, and sharing among ties is the average over their orders
    /\ \A f \in Perms : RLe(Dcg(Along(f), D), RAdd(best, Eps))
    /\ LET tot == SetSum(Orders, LAMBDA f : Dcg(Along(f), D)) IN Close(RDiv(tot, RI(Cardinality(Orders))), TieDcg(L, D))
    /\ Unordered(L) \/ Close(TieDcg(L, D), Dcg(ByScore(L), D))
(* as two samples: the index is non-negative, vanishes on equal samples, and does not depend on their order of arrival *)
Stability ==
  n > 1 => \A k \in {2, 4} :
    LET B == PsiBreaks(A, k) R == PsiRows(A, P, B) O == PsiRows(A, A, B) IN
    /\ \A j \in 1..Len(R) : RSgn(R[j].psi) >= 0 /\ CountIn(A, B, j) > 0
    /\ RSgn(Total(O)) = 0
    /\ RSum([j \in 1..Len(R) |-> RI(CountIn(P, B, j))]) = RI(n)
    /\ \A j \in 1..(Len(B) - 1) : RLt(B[j], B[j + 1])
ASSUME \A g, b \in 0..2 : RSgn(Iv(RI(g), RI(b), RI(g + 1), RI(b + 1))) >= 0
=============================================================================
