---------------------------- MODULE DependencyMC ----------------------------
(***************************************************************************)
(* Drawing which columns determine which.  Columns are put in an order in  *)
(* which the number of their values does not fall; an arrow goes from a    *)
(* later column to an earlier one that it determines.  Arrows that can be  *)
(* left out are taken away one at a time, in any order.                    *)
(***************************************************************************)
EXTENDS Inspect
CONSTANTS R, K
VARIABLES tab, E
vars == <<tab, E>>
(* columns up to the names of their values: each value is the number of rows up to its first *)
SMax(p) == CHOOSE m \in {p[i] : i \in 1..Len(p)} : \A i \in 1..Len(p) : p[i] <= m
RECURSIVE Parts(_)
Parts(r) == IF r = 0 THEN {<<>>} ELSE UNION {{Append(p, m) : m \in 0..(IF p = <<>> THEN 0 ELSE SMax(p) + 1)} : p \in Parts(r - 1)}
Vals1(p) == SMax(p) + 1
Cols == {p \in Parts(R) : Vals1(p) > 1}
Full(t) == {<<j, i>> \in (1..K) \X (1..K) : i < j /\ Determines(t[j], t[i])}
Init == /\ tab \in {t \in [1..K -> Cols] : \A i \in 1..(K - 1) : Vals1(t[i]) <= Vals1(t[i + 1])}
        /\ E = Full(tab)
TakeAway == \E e \in E : Redundant(E, e) /\ E' = E \ {e} /\ UNCHANGED tab
Next == TakeAway
D == Full(tab)
SameReach == \A e \in D : Path(E, e[1], e[2])
NoLoop == Acyclic(E)
OneEnd == (\A e \in E : ~Redundant(E, e)) => E = Reduction(D)
(* one pass over the parents of every column, looking at the full relation for their children, ends there too *)
RECURSIVE Pass(_, _, _)
Pass(F, order, left) == IF order = <<>> THEN left
                        ELSE LET p == order[1] kids == {f[2] : f \in {x \in F : x[1] = p}} IN
                             Pass(F, Tail(order), IF kids \cap left # {} THEN left \ {p} ELSE left)
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]}
OnePass == E = D => \A c \in 1..K : LET P == {f[1] : f \in {x \in D : x[2] = c}} IN
             \A q \in Orders(P) : Pass(D, q, P) = {f[1] : f \in {x \in Reduction(D) : x[2] = c}}
(* nothing is left to know iff determined *)
Pow2M == RDiv(RI(1), RPow(RI(2), 20))
Entropy0 == E = D => \A i, j \in 1..K : i # j => (Determines(tab[j], tab[i]) <=> RLt(CondEntropy(tab[i], tab[j]), Pow2M))
=============================================================================
