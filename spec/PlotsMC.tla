------------------------------ MODULE PlotsMC ------------------------------
(***************************************************************************)
(* Scored rows are read one by one, with the five sums a line needs.  Then *)
(* a threshold falls through the scores, counting, and draws the curve as  *)
(* it goes with the area so far; or the cloud is thinned a point at a      *)
(* time.  What has been drawn is what Plots says of the rows.              *)
(* A row is <<target, score>>, the score -1 where it is not known.         *)
(***************************************************************************)
EXTENDS Plots
CONSTANTS N, Top
VARIABLES rows, sums, t, path, area2, left
vars == <<rows, sums, t, path, area2, left>>
Zero == [n |-> 0, x |-> 0, y |-> 0, xx |-> 0, xy |-> 0]
Start == [at |-> Top + 1, tp |-> 0, fp |-> 0]
Init == rows = <<>> /\ sums = Zero /\ t = Start /\ path = << <<0, 0>> >> /\ area2 = 0 /\ left = <<>>
Reading == t = Start /\ left = rows
Read == /\ Reading /\ Len(rows) < N
        /\ \E a \in 0..1, s \in -1..Top :
             /\ rows' = Append(rows, <<a, s>>) /\ left' = Append(left, <<a, s>>)
             /\ sums' = IF s = -1 THEN sums ELSE [n |-> sums.n + 1, x |-> sums.x + s, y |-> sums.y + a, xx |-> sums.xx + s * s, xy |-> sums.xy + s * a]
        /\ UNCHANGED <<t, path, area2>>
AllScored == \A i \in 1..Len(rows) : rows[i][2] # -1
Lower == {rows[i][2] : i \in 1..Len(rows)} \cap 0..(t.at - 1)
HowManyAt(a, s) == Cardinality({i \in 1..Len(rows) : rows[i] = <<a, s>>})
Fall == /\ left = rows /\ AllScored /\ Lower # {}
        /\ LET s == CHOOSE x \in Lower : \A y \in Lower : y <= x
               tp == t.tp + HowManyAt(1, s) fp == t.fp + HowManyAt(0, s) IN
           /\ t' = [at |-> s, tp |-> tp, fp |-> fp] /\ path' = Append(path, <<fp, tp>>)
           /\ area2' = area2 + (fp - t.fp) * (tp + t.tp)
        /\ UNCHANGED <<rows, sums, left>>
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Thin == t = Start /\ Len(rows) = N /\ Len(left) > 1 /\ \E i \in 1..Len(left) : left' = Drop(left, i) /\ UNCHANGED <<rows, sums, t, path, area2>>
Next == Read \/ Fall \/ Thin
(* the curve *)
Scored == Eager([i \in 1..Len(rows) |-> [a |-> rows[i][1], s |-> RI(rows[i][2]), c |-> U1]])
Risen == \A i \in 1..(Len(path) - 1) : path[i][1] <= path[i + 1][1] /\ path[i][2] <= path[i + 1][2] /\ path[i] # path[i + 1]
Done == rows # <<>> /\ AllScored /\ t # Start /\ Lower = {}
Curve == Done /\ TwoClasses(Scored) =>
  LET W == RocPoints(Scored) IN
  /\ Len(path) = Len(W)
  /\ \A i \in 1..Len(W) : REq(W[i][1].v, RQ(path[i][1], t.fp)) /\ REq(W[i][2].v, RQ(path[i][2], t.tp))
  /\ REq(Area(W), Auc(Scored).v) /\ REq(RI(area2), RMul(RI(2), AucPairs(Scored)))
(* the line *)
Known2 == SelectSeq(rows, LAMBDA q : q[2] # -1)
Det == sums.n * sums.xx - sums.x * sums.x
TheLine2(bias) == LET K == Known2 IN Line(Eager([i \in 1..Len(K) |-> RI(K[i][2])]), Eager([i \in 1..Len(K) |-> RI(K[i][1])]), Eager([i \in 1..Len(K) |-> U1]), bias)
Fits == Reading /\ sums.n > 0 =>
  /\ LET L == TheLine2(TRUE) IN
     IF Det = 0 THEN L.k = "open"
     ELSE LET b == RQ(sums.n * sums.xy - sums.x * sums.y, Det) IN
          /\ REq(L.b, b) /\ REq(RMul(RI(sums.n), L.a), RSub(RI(sums.y), RMul(b, RI(sums.x))))
          (* nothing is left over that the line could explain *)
          /\ LET K == Known2 X == Eager([i \in 1..Len(K) |-> RI(K[i][2])]) Y == Eager([i \in 1..Len(K) |-> RI(K[i][1])]) E == Resid(L, X, Y) IN
             RSgn(RSum(E)) = 0 /\ RSgn(RSum(Times2(E, X))) = 0
             /\ (LET q == RSquared(L, X, Y) IN q.k = "open" \/ (RLe(Z0, q.v) /\ RLe(q.v, U1)))
  /\ LET L == TheLine2(FALSE) IN IF sums.xx = 0 THEN L.k = "open" ELSE REq(L.b, RQ(sums.xy, sums.xx)) /\ RSgn(L.a) = 0
(* bins of scores: higher and higher, positives accounted for *)
Binned == Reading /\ rows # <<>> /\ AllScored =>
  \A k \in 2..3 :
    LET C == Calibration(Eager([i \in 1..Len(rows) |-> RI(rows[i][2])]), Eager([i \in 1..Len(rows) |-> RI(rows[i][1])]), k) IN
    /\ Len(C) >= 1 /\ \A i \in 1..Len(C) : RLe(Z0, C[i][2]) /\ RLe(C[i][2], U1)
    /\ \A i \in 1..(Len(C) - 1) : RLt(C[i][1], C[i + 1][1])
    /\ Len(C) = 1 => REq(C[1][2], RQ(sums.y, sums.n))
(* the thinned cloud *)
Thinned == ThinOk(left, rows, Len(left)) /\ ~ThinOk(Append(left, <<2, 0>>), rows, Len(left) + 1)
=============================================================================
