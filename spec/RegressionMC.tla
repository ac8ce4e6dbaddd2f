---------------------------- MODULE RegressionMC ----------------------------
(***************************************************************************)
(* Why the specification's solution is the right one: for every small      *)
(* problem the solution of the normal equations is not beaten by any other *)
(* coefficients, the soft-thresholded coefficient is the only one meeting  *)
(* the elastic net's optimality conditions, and the variance formulas obey *)
(* their known relations.                                                  *)
(***************************************************************************)
EXTENDS Regression, TLC
CONSTANTS Xs, Ys, N
XSet == {-1, 0, 2}
VARIABLES x, y, l2, bias
Init == x \in [1..N -> Xs] /\ y \in [1..N -> Ys] /\ l2 \in {0, 1} /\ bias \in BOOLEAN
Next == UNCHANGED <<x, y, l2, bias>>
M == WithBias(Eager([i \in 1..N |-> <<RI(x[i])>>]), bias)
Y == Eager([i \in 1..N |-> RI(y[i])])
W == Eager([i \in 1..N |-> RI(i)])
P == Problem(M, Y, W, RI(l2), bias)
Loss(b) == RAdd(RSum([i \in 1..N |-> RMul(W[i], RPow(RSub(Y[i], RDot(M[i], b)), 2))]), RMul(RI(l2), RMul(b[1], b[1])))
Steps == {RQ(-1, 2), RQ(0, 1), RQ(1, 3)}
Shifts == IF bias THEN {<<a, b>> : a \in Steps, b \in Steps} ELSE {<<a>> : a \in Steps}
Least == P.ok => \A d \in Shifts : RLe(Loss(P.beta), Loss(Eager([j \in 1..Len(d) |-> RAdd(P.beta[j], d[j])])))
Inverts == P.ok => MatMul(P.A, P.inv) = Eager(Identity(Len(P.A)))
Determined == P.ok <=> (IF bias THEN (l2 = 1 \/ \E i \in 1..N : x[i] # x[1]) ELSE (l2 = 1 \/ \E i \in 1..N : x[i] # 0))

(* one feature, no intercept: the elastic net in closed form *)
L1 == RQ(1, 2)
Soft == LET m == RI(N) xx == RSum([i \in 1..N |-> RI(x[i] * x[i])]) xy == RSum([i \in 1..N |-> RI(x[i] * y[i])])
            t == RMul(m, L1) d == RAdd(xx, RMul(m, RI(l2))) IN
        IF RSgn(d) = 0 THEN Zero ELSE IF RLt(t, xy) THEN RDiv(RSub(xy, t), d) ELSE IF RLt(xy, RNeg(t)) THEN RDiv(RAdd(xy, t), d) ELSE Zero
M1 == Eager([i \in 1..N |-> <<RI(x[i])>>])
SoftIsOptimal == Optimal(M1, Y, <<Soft>>, L1, RI(l2), FALSE, Zero)
OnlySoft == (\E i \in 1..N : x[i] # 0) => \A d \in Steps : Optimal(M1, Y, <<RAdd(Soft, d)>>, L1, RI(l2), FALSE, Zero) => RSgn(d) = 0

(* leverages sum to the number of coefficients; HC0 <= HC2 <= HC3, HC1 scales HC0 *)
P0 == Problem(M, Y, Ones(N), Zero, bias)
Robust == (P0.ok /\ N > Len(P0.beta)) =>
   LET h == Leverages(P0, M) IN
   /\ REq(RSum(h), RI(Len(P0.beta)))
   /\ (\A i \in 1..N : RLt(h[i], One)) =>
        LET v(k) == Variances(P0, M, Y, Ones(N), k) IN
        \A j \in 1..Len(P0.beta) :
          /\ RLe(v("hc0")[j], v("hc2")[j]) /\ RLe(v("hc2")[j], v("hc3")[j])
          /\ REq(v("hc1")[j], RMul(v("hc0")[j], RQ(N, N - Len(P0.beta))))
=============================================================================
