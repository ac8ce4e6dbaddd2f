---------------------------- MODULE NeighboursGen ----------------------------
(* every frame of a few points on a line with a gap, every k and metric *)
EXTENDS Neighbours, TLC, Json
CONSTANTS Coords, N
VARIABLES c
Frames == UNION {[1..n -> [1..1 -> Coords \cup {MISSING}]] : n \in 1..N}
Masks(n) == {[i \in 1..n |-> 1], [i \in 1..n |-> i % 2], [i \in 1..n |-> 0]}
Idx(n) == [i \in 1..n |-> 10 + n - i]
Init == c \in UNION {
   {[op |-> "knn", X |-> X, index |-> Idx(Len(X)), unit |-> "1", k |-> k, dist |-> d, maxb |-> b, wd |-> TRUE, par |-> FALSE, data |-> m, ch |-> 1] :
       k \in {1, 2}, d \in {"l1", "sql2"}, b \in {"4", "99999"}, m \in Masks(Len(X))}
   \cup {[op |-> "radius", X |-> X, index |-> Idx(Len(X)), unit |-> "1", r |-> <<"2">>, dist |-> d, sort |-> TRUE, par |-> FALSE, ch |-> 1] : d \in {"l2", "inf"}}
   \cup {[op |-> "count", X |-> X, unit |-> "1", r |-> <<"2">>, dist |-> d, par |-> TRUE, ch |-> 1, how |-> "float"] : d \in {"inf", "sql2"}}
   \cup {[op |-> "kth", X |-> X, unit |-> "1", k |-> 1, dist |-> "l2", maxb |-> b, par |-> FALSE, ch |-> 1] : b \in {"2", "99999"}}
   : X \in Frames}
Next == UNCHANGED c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
