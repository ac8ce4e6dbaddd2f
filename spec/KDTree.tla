------------------------------- MODULE KDTree -------------------------------
(***************************************************************************)
(* The k-d tree as a state machine.  Points are added one at a time; a     *)
(* leaf that grows beyond its capacity splits at the middle of its box or  *)
(* at its median; a query walks down to a leaf, remembering the subtrees   *)
(* it passed whose box is close enough.  At any time a finished query has  *)
(* found exactly the points an exhaustive search finds; with an Eps > 0    *)
(* subtrees are skipped earlier and the answer may miss a point by Eps.    *)
(*                                                                         *)
(* The tree is a function from node names (sequences of 0 and 1, the path  *)
(* from the root) to nodes.                                                *)
(***************************************************************************)
EXTENDS Neighbours, TLC
CONSTANTS Dim, Coords, MaxPoints, Capacity, Metric, Ks, Bounds, Median, Eps
VARIABLES pts, tree, query

Pt == [1..Dim -> Coords]
BIG == 1000
EmptyBox == [lo |-> [i \in 1..Dim |-> BIG], hi |-> [i \in 1..Dim |-> -BIG]]
Mi(a, b) == IF a < b THEN a ELSE b
Ma(a, b) == IF a < b THEN b ELSE a
Grow(b, p) == [lo |-> [i \in 1..Dim |-> Mi(b.lo[i], p[i])], hi |-> [i \in 1..Dim |-> Ma(b.hi[i], p[i])]]
BoxOf(ids, P) == FoldLeft(LAMBDA b, id : Grow(b, P[id]), EmptyBox, ids)
LeafNode(ids, P) == [leaf |-> TRUE, ids |-> ids, box |-> BoxOf(ids, P), axis |-> 1, at |-> 0]
(* coordinates are doubled, so that the middle of a box is an integer *)
Root == <<>>

Init == pts = <<>> /\ tree = (Root :> LeafNode(<<>>, <<>>)) /\ query = [on |-> FALSE]

(* where a point goes down from node n *)
RECURSIVE PathTo(_, _, _)
PathTo(t, n, p) == IF t[n].leaf THEN <<n>>
  ELSE <<n>> \o PathTo(t, Append(n, IF p[t[n].axis] < t[n].at THEN 0 ELSE 1), p)

Split(node, n, P) ==        \* the pieces a full leaf n falls into: <<left, right, axis, at>>; left may be empty
  LET axis == (Len(n) % Dim) + 1
      key(id) == P[id][axis]
      sorted == SortSeq(node.ids, LAMBDA a, b : key(a) < key(b))
      mid == node.box.lo[axis] + ((node.box.hi[axis] - node.box.lo[axis]) \div 2)
      half == Len(sorted) \div 2
  IN IF Median THEN <<SubSeq(sorted, 1, half), SubSeq(sorted, half + 1, Len(sorted)), axis, key(sorted[half + 1])>>
     ELSE <<SelectSeq(node.ids, LAMBDA id : key(id) < mid), SelectSeq(node.ids, LAMBDA id : key(id) >= mid), axis, mid>>

Add(p) ==
  /\ ~query.on /\ Len(pts) < MaxPoints
  /\ pts' = Append(pts, p)
  /\ LET id == Len(pts) + 1
         path == PathTo(tree, Root, p)
         n == path[Len(path)]
         t1 == [m \in DOMAIN tree |-> IF m \in {path[i] : i \in 1..Len(path)}
                  THEN [tree[m] EXCEPT !.box = Grow(@, p), !.ids = IF m = n THEN Append(@, id) ELSE @] ELSE tree[m]]
         s == Split(t1[n], n, pts')
     IN tree' = IF Len(t1[n].ids) <= Capacity \/ s[1] = <<>> THEN t1
                ELSE (n :> [t1[n] EXCEPT !.leaf = FALSE, !.ids = <<>>, !.axis = s[3], !.at = s[4]])
                     @@ (Append(n, 0) :> LeafNode(s[1], pts')) @@ (Append(n, 1) :> LeafNode(s[2], pts')) @@ t1
  /\ UNCHANGED query

BoxMeasure(b, p) ==
  LET d == [i \in 1..Dim |-> IF p[i] > b.hi[i] THEN p[i] - b.hi[i] ELSE IF p[i] < b.lo[i] THEN b.lo[i] - p[i] ELSE 0] IN
  CASE Metric = "l1" -> SumI(d) [] Metric = "inf" -> MaxI(d) [] OTHER -> SumI([i \in 1..Dim |-> d[i] * d[i]])

(* k = 0: everything within the bound *)
Ask(p, k, bound) ==
  /\ ~query.on /\ pts # <<>>
  /\ query' = [on |-> TRUE, p |-> p, k |-> k, bound |-> bound, pending |-> <<<<0, Root>>>>, found |-> <<>>]
  /\ UNCHANGED <<pts, tree>>

Limit == IF query.k = 0 \/ Len(query.found) < query.k THEN query.bound
         ELSE Measure(Metric, pts[query.found[Len(query.found)]], query.p)
InsertFound(found, id) ==
  LET m(i) == Measure(Metric, pts[i], query.p)
      pos == Len(SelectSeq(found, LAMBDA j : m(j) <= m(id)))
      all == SubSeq(found, 1, pos) \o <<id>> \o SubSeq(found, pos + 1, Len(found))
  IN IF m(id) > query.bound THEN found
     ELSE IF query.k > 0 /\ Len(all) > query.k THEN SubSeq(all, 1, query.k) ELSE all

(* one step: take the last pending subtree; if it may still matter, walk to a leaf *)
Visit ==
  /\ query.on /\ query.pending # <<>>
  /\ LET top == query.pending[Len(query.pending)]
         rest == SubSeq(query.pending, 1, Len(query.pending) - 1)
         path == PathTo(tree, top[2], query.p)
         leaf == path[Len(path)]
         side(i) == LET c == path[i + 1] IN Append(path[i], 1 - c[Len(c)])
         sides == [i \in 1..Len(path) - 1 |-> <<BoxMeasure(tree[side(i)].box, query.p), side(i)>>]
         near == SelectSeq(sides, LAMBDA s : s[1] + (IF query.k = 0 THEN 0 ELSE Eps) <= Limit)
     IN query' = IF top[1] > Limit THEN [query EXCEPT !.pending = rest]
                 ELSE [query EXCEPT !.pending = rest \o near, !.found = FoldLeft(InsertFound, @, tree[leaf].ids)]
  /\ UNCHANGED <<pts, tree>>
Finish == query.on /\ query.pending = <<>> /\ query' = [on |-> FALSE] /\ UNCHANGED <<pts, tree>>

Next == \/ \E p \in Pt : Add(p)
        \/ \E p \in Pt, k \in Ks, b \in Bounds : Ask(p, k, b)
        \/ Visit \/ Finish

(* the tree holds every point once, in boxes that contain them *)
Leaves == {n \in DOMAIN tree : tree[n].leaf}
Holds == /\ \A id \in 1..Len(pts) : Cardinality({n \in Leaves : \E i \in 1..Len(tree[n].ids) : tree[n].ids[i] = id}) = 1
         /\ SumI([j \in 1..Cardinality(Leaves) |-> Len(tree[SetToSeq(Leaves)[j]].ids)]) = Len(pts)
Boxed == \A n \in DOMAIN tree : \A m \in Leaves :
           (Len(n) <= Len(m) /\ SubSeq(m, 1, Len(n)) = n) =>
              \A i \in 1..Len(tree[m].ids) : BoxMeasure(tree[n].box, pts[tree[m].ids[i]]) = 0
Correct == (query.on /\ query.pending = <<>>) =>
  LET m == [id \in 1..Len(pts) |-> Measure(Metric, pts[id], query.p)]
      C == {id \in 1..Len(pts) : m[id] <= query.bound}
  IN IF query.k = 0 THEN {query.found[i] : i \in 1..Len(query.found)} = C /\ Len(query.found) = Cardinality(C)
     ELSE IF Eps = 0 THEN AreNearest(query.found, C, m, query.k)
     ELSE LET Gap(a, b) == a + Eps < b
              Edge(a) == a + Eps <= query.bound
          IN AreNearly(query.found, C, m, query.k, Gap, Edge)
=============================================================================
