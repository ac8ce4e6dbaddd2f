------------------------------- MODULE RatMC -------------------------------
(* The Java evaluation of Rat agrees with Rat's definitions.  The          *)
(* definitions are restated on pairs here, because the names in Rat are    *)
(* overridden.                                                             *)
EXTENDS Rat, TLC
CONSTANT K
RECURSIVE G(_, _)
G(a, b) == IF b = 0 THEN a ELSE G(b, a % b)
Ab(a) == IF a < 0 THEN -a ELSE a
Nrm(n, d) == LET g == G(Ab(n), Ab(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<(s * n) \div g, (s * d) \div g>>
Lit(p) == IF p[2] = 1 THEN ToString(p[1]) ELSE ToString(p[1]) \o "/" \o ToString(p[2])
VARIABLES a, b
Pairs == {Nrm(n, d) : n \in -K..K, d \in 1..K}
Init == a \in Pairs /\ b \in Pairs
Next == UNCHANGED <<a, b>>
X == RQ(a[1], a[2])
Y == RQ(b[1], b[2])
Agree ==
  /\ RStr(X) = Lit(a) /\ IsRat(X) /\ ~IsRat("nan") /\ ~IsRat(1)
  /\ RStr(RP(Lit(a))) = Lit(a)
  /\ RStr(RAdd(X, Y)) = Lit(Nrm(a[1] * b[2] + b[1] * a[2], a[2] * b[2]))
  /\ RStr(RSub(X, Y)) = Lit(Nrm(a[1] * b[2] - b[1] * a[2], a[2] * b[2]))
  /\ RStr(RMul(X, Y)) = Lit(Nrm(a[1] * b[1], a[2] * b[2]))
  /\ b[1] # 0 => RStr(RDiv(X, Y)) = Lit(Nrm(a[1] * b[2], a[2] * b[1]))
  /\ RStr(RNeg(X)) = Lit(<<-a[1], a[2]>>)
  /\ RStr(RAbs(X)) = Lit(<<Ab(a[1]), a[2]>>)
  /\ RLe(X, Y) = (a[1] * b[2] <= b[1] * a[2])
  /\ RLt(X, Y) = (a[1] * b[2] < b[1] * a[2])
  /\ REq(X, Y) = (a[1] * b[2] = b[1] * a[2])
  /\ RSgn(X) = (IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0)
  /\ RMin(X, Y) = (IF RLe(X, Y) THEN X ELSE Y)
  /\ RMax(X, Y) = (IF RLe(X, Y) THEN Y ELSE X)
  /\ RFloor(X) = a[1] \div a[2]
  /\ RStr(RPow(X, 3)) = Lit(Nrm(a[1] * a[1] * a[1], a[2] * a[2] * a[2]))
  /\ RSum(<<X, Y, X>>) = RAdd(X, RAdd(Y, X))
  /\ RDot(<<X, Y>>, <<Y, Y>>) = RAdd(RMul(X, Y), RMul(Y, Y))
  (* the rounding operators, by their defining inequalities *)
  /\ LET h == RRnd(X, 3) IN RLe(RAbs(RSub(h, X)), RQ(1, 16)) /\ RLe(RI(RFloor(RMul(h, RI(8)))), RMul(h, RI(8))) /\ REq(RI(RFloor(RMul(h, RI(8)))), RMul(h, RI(8)))
  /\ REq(RF64(X), X) \/ RLe(RAbs(RSub(RF64(X), X)), RMul(RAbs(X), RDiv(RI(1), RPow(RI(2), 53))))
  /\ RLe(RAbs(RSub(RF32(X), X)), RMul(RAbs(X), RDiv(RI(1), RPow(RI(2), 24))))
  /\ RLe(RAbs(RSub(RSig(X, 5), X)), RMul(RAbs(X), RQ(1, 32)))
  /\ RSgn(X) >= 0 => LET h == RSqrt(X, 4) IN RLe(RMul(h, h), X) /\ RLt(X, RPow(RAdd(h, RQ(1, 16)), 2)) /\ REq(RI(RFloor(RMul(h, RI(16)))), RMul(h, RI(16)))
  /\ ~RIsNum("nan") /\ ~RIsNum("null") /\ ~RIsNum("-inf") /\ RIsNum(Lit(a)) /\ ~RIsNum("")
=============================================================================
