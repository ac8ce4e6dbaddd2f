----------------------------- MODULE Regression -----------------------------
(***************************************************************************)
(* Least squares.  A problem is a matrix X of rows (the column of ones of  *)
(* the intercept included, as the last one), targets y, weights w, and an  *)
(* l2 penalty that spares the intercept.                                   *)
(***************************************************************************)
EXTENDS LinAlg
Ones(n) == [i \in 1..n |-> One]
WithBias(X, bias) == IF bias THEN Eager([i \in 1..Len(X) |-> Append(X[i], One)]) ELSE X
Penalised(A, l2, bias) == Eager([i \in 1..Len(A) |-> [j \in 1..Len(A) |->
                            IF i = j /\ ~(bias /\ i = Len(A)) THEN RAdd(A[i][j], l2) ELSE A[i][j]]])
Normal(X, w, l2, bias) == Penalised(Gram(X, w), l2, bias)
(* the problem's solution: [ok, A, inv, beta]; ok is FALSE when X does not determine it *)
Problem(X, y, w, l2, bias) ==
  LET A == Normal(X, w, l2, bias)
      inv == Inverse(A)
  IN IF inv = <<>> THEN [ok |-> FALSE, A |-> A, inv |-> <<>>, beta |-> <<>>]
     ELSE [ok |-> TRUE, A |-> A, inv |-> inv, beta |-> MatVec(inv, GramVec(X, w, y))]
Predict(X, beta) == MatVec(X, beta)
Residuals(X, y, beta) == VecSub(y, Predict(X, beta))
(* how far from exact a backward stable solution of the normal equations may be, per unit roundoff *)
Condition(P) == RMul(Norm(P.A), Norm(P.inv))
(* descent along one coordinate at a time contracts by the inflation of the coefficients' variances *)
SlowDescent(P) == ~P.ok \/ RLe(RI(48), RSum([j \in 1..Len(P.A) |-> RMul(P.A[j][j], P.inv[j][j])]))
Sensitivity(P, X, y, w) == RAdd(RMul(Condition(P), MaxOf(AbsVec(P.beta))),
                                RMul(Norm(P.inv), MaxOf(GramVec(AbsMat(X), w, AbsVec(y)))))

(***************************************************************************)
(* The elastic net minimises |y - X b|^2 / 2m + l1 |b|_1 + l2 |b|_2^2 / 2, *)
(* the intercept unpenalised: b is the minimiser iff the gradient of the   *)
(* smooth part is opposite to a subgradient of the l1 part (slack: what    *)
(* the stopping criterion leaves).                                         *)
(***************************************************************************)
Optimal(X, y, b, l1, l2, bias, slack) ==
  LET m == RI(Len(X))
      T == Transpose(X)
      r == Residuals(X, y, b)
      p == Len(b)
      np == IF bias THEN p - 1 ELSE p
  IN /\ \A j \in 1..np :
          LET g == RSub(RDiv(RDot(T[j], r), m), RMul(l2, b[j])) IN
          IF RSgn(b[j]) = 0 THEN RLe(RAbs(g), RAdd(l1, slack))
          ELSE RLe(RAbs(RSub(g, RMul(RI(RSgn(b[j])), l1))), slack)
     /\ bias => RLe(RAbs(RDiv(RSum(r), m)), slack)

(* power sums of the squared singular values of X are the traces of powers of X'X *)
RECURSIVE PowerTraces(_, _, _, _)
PowerTraces(A, P, k, n) == IF k > n THEN <<>> ELSE <<Trace1(P)>> \o PowerTraces(A, MatMul(P, A), k + 1, n)

(***************************************************************************)
(* Inference (report): the classical or a heteroskedasticity-consistent    *)
(* variance of each coefficient, R2 and adjusted R2                        *)
(***************************************************************************)
SumSq(v) == RDot(v, v)
Leverages(P, X) == LET M == MatMul(P.inv, Transpose(X)) p == Len(P.inv) IN
                   Eager([i \in 1..Len(X) |-> RDot(X[i], [j \in 1..p |-> M[j][i]])])
Variances(P, X, y, w, kind) ==
  LET n == Len(X) p == Len(P.beta)
      r == Residuals(X, y, P.beta)
      M == MatMul(P.inv, Transpose(X))                         \* p x n
      h == Leverages(P, X)
      s(i) == LET r2 == RMul(r[i], r[i]) IN
              CASE kind = "hc0" -> r2
                [] kind = "hc1" -> RMul(r2, RQ(n, n - p))
                [] kind = "hc2" -> RDiv(r2, RSub(One, h[i]))
                [] kind = "hc3" -> RDiv(r2, RPow(RSub(One, h[i]), 2))
  IN IF kind = "se"
     THEN LET mse == RDiv(RSum([i \in 1..n |-> RMul(w[i], RMul(r[i], r[i]))]), RI(n - p)) IN
          Eager([j \in 1..p |-> RMul(mse, P.inv[j][j])])
     ELSE LET S == Eager([i \in 1..n |-> s(i)]) IN
          Eager([j \in 1..p |-> RSum([i \in 1..n |-> RMul(RMul(M[j][i], M[j][i]), S[i])])])
MeanOf(v) == RDiv(RSum(v), RI(Len(v)))
TotalSq(v) == LET m == MeanOf(v) IN RSum([i \in 1..Len(v) |-> RPow(RSub(v[i], m), 2)])

(***************************************************************************)
(* Rows with missing values (a missing value is the string "null")         *)
(***************************************************************************)
Present(s) == s # "null"
FullRow(row) == \A j \in 1..Len(row) : Present(row[j])
SelectIdx(n, Test(_)) == SelectSeq([i \in 1..n |-> i], Test)
Fill(policy) == CASE policy = "zero" -> "0" [] policy = "one" -> "1" [] policy = "2.5" -> "5/2" [] OTHER -> policy
IsFill(policy) == policy \notin {"raise", "skip", "ignore"}
(* the rows a policy keeps, in order *)
KeptRows(X, y, policy) ==
  IF IsFill(policy) THEN SelectIdx(Len(X), LAMBDA i : Present(y[i]))
  ELSE SelectIdx(Len(X), LAMBDA i : Present(y[i]) /\ FullRow(X[i]))
AnyMissing(X, y) == \E i \in 1..Len(X) : ~Present(y[i]) \/ ~FullRow(X[i])
Value(s, policy) == IF s = "null" THEN RP(Fill(policy)) ELSE RP(s)
=============================================================================
