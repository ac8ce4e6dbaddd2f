------------------------------ MODULE BinaryMC ------------------------------
(***************************************************************************)
(* The computation: sweep the thresholds from the greatest down, keeping   *)
(* running counts, the area under the curve by trapezoids and the average  *)
(* precision.  At every step the area is that of the pairs decided so far, *)
(* and in the end both are the counting definitions.                       *)
(***************************************************************************)
EXTENDS Binary, TLC
CONSTANTS N
VARIABLES rows, k, tp, fp, area, ap
Score(x) == RQ(x, 4)
R == [i \in 1..Len(rows) |-> [a |-> rows[i][1], s |-> Score(rows[i][2]), c |-> RI(1)]]
S(r) == RStr(r)
G(s) == RP(s)
Init == /\ rows \in UNION {[1..n -> (0..1) \X (1..3)] : n \in 1..N}
        /\ k = Len(Thresholds(R)) /\ tp = S(Z0) /\ fp = S(Z0) /\ area = S(Z0) /\ ap = S(Z0)
Step ==
  /\ k > 0
  /\ LET t == Thresholds(R)[k] tp2 == AtLeast(R, 1, t) fp2 == AtLeast(R, 0, t) IN
     /\ tp' = S(tp2) /\ fp' = S(fp2)
     /\ area' = S(RAdd(G(area), RMul(RSub(fp2, G(fp)), RDiv(RAdd(tp2, G(tp)), RI(2)))))
     /\ ap' = S(RAdd(G(ap), RDiv(RMul(RSub(tp2, G(tp)), tp2), RAdd(tp2, fp2))))
  /\ k' = k - 1 /\ UNCHANGED rows
Next == Step
(* the rows at or above the thresholds swept so far *)
Seen == SelectSeq(R, LAMBDA r : k < Len(Thresholds(R)) /\ RLe(Thresholds(R)[k + 1], r.s))
AreaIsPairs == REq(G(area), AucPairs(Seen))
CountsSeen == REq(G(tp), Pos(Seen)) /\ REq(G(fp), Neg(Seen))
ApIsDefinition == k = 0 => (RSgn(Pos(R)) = 0 \/ REq(RDiv(G(ap), Pos(R)), AvgPrec(R).v))
(* exchanging the classes mirrors the curve *)
Flip == [i \in 1..Len(rows) |-> [R[i] EXCEPT !.a = 1 - R[i].a]]
Mirror == k = 0 => (~IsNum(Auc(R)) \/ REq(RAdd(Auc(R).v, Auc(Flip).v), RI(1)))
(* the two forms of the Matthews coefficient agree *)
Close(x, y) == RLe(RAbs(RSub(x, y)), RDiv(RI(1), RPow(RI(2), 90)))
TwoMcc ==
  k = 0 => LET t == Score(1) tp1 == Above(R, 1, t) fp1 == Above(R, 0, t) fn1 == RSub(Pos(R), tp1) tn1 == RSub(Neg(R), fp1)
               m == Confusion(tp1, fp1, tn1, fn1).mcc q == Phi(tp1, fp1, tn1, fn1) IN
           m.k = q.k /\ (IsNum(m) => Close(m.v, q.v))
=============================================================================
