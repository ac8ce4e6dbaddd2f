----------------------------- MODULE Neighbours -----------------------------
(***************************************************************************)
(* Which points are near a point.  Coordinates are integers (the harness   *)
(* scales them by a power of two); MISSING stands for null, NOTNUM for NaN.*)
(* For the metric "l2" the measure is the squared distance, so everything  *)
(* but the reported distance itself is integer arithmetic.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Rat

MISSING == 99999
NOTNUM  == 99998
Absent(c) == c \in {MISSING, NOTNUM}
Complete(p) == \A i \in 1..Len(p) : ~Absent(p[i])

AbsI(x) == IF x < 0 THEN -x ELSE x
SumI(f) == FoldLeft(LAMBDA a, b : a + b, 0, f)
MaxI(f) == FoldLeft(LAMBDA a, b : IF a < b THEN b ELSE a, 0, f)
Measure(metric, p, q) ==
  LET d == [i \in 1..Len(p) |-> AbsI(p[i] - q[i])] IN
  CASE metric = "l1" -> SumI(d)
    [] metric = "inf" -> MaxI(d)
    [] OTHER -> SumI([i \in 1..Len(p) |-> d[i] * d[i]])

(* the unit of the measure when coordinates carry the unit u, and a radius in measure terms *)
Unit(metric, u) == IF metric \in {"l2", "sql2"} THEN RMul(u, u) ELSE u
Within(metric, u, m, r) ==     \* is a point at measure m within radius r ?
  LET x == RMul(RI(m), Unit(metric, u)) IN
  IF metric = "l2" THEN RSgn(r) >= 0 /\ RLe(x, RMul(r, r)) ELSE RLe(x, r)
(* the distance of a point at measure m *)
Distance(metric, u, m) ==
  LET x == RMul(RI(m), Unit(metric, u)) IN IF metric = "l2" THEN RSqrt(x, 80) ELSE x

(***************************************************************************)
(* ids (a sequence of members of C) are k nearest of C in order, where     *)
(* m[c] is the measure of c                                                *)
(***************************************************************************)
LeastI(a, b) == IF a < b THEN a ELSE b
AreNearest(ids, C, m, k) ==
  /\ Len(ids) = LeastI(k, Cardinality(C))
  /\ \A i \in 1..Len(ids) : ids[i] \in C
  /\ Cardinality({ids[i] : i \in 1..Len(ids)}) = Len(ids)
  /\ \A i \in 1..Len(ids) - 1 : m[ids[i]] <= m[ids[i + 1]]
  /\ ids # <<>> => \A c \in C \ {ids[i] : i \in 1..Len(ids)} : m[ids[Len(ids)]] <= m[c]

(* an approximate answer, allowed to miss a neighbour by eps: what is reported is true, *)
(* and whoever is missed is no nearer than eps below the last of a full answer, or the  *)
(* bound.  Gap(a, b) says whether the distance at measure b exceeds that at a by > eps;  *)
(* Edge(a) whether a lies more than eps below the bound                                 *)
AreNearly(ids, C, m, k, Gap(_, _), Edge(_)) ==
  /\ Len(ids) <= LeastI(k, Cardinality(C))
  /\ \A i \in 1..Len(ids) : ids[i] \in C
  /\ Cardinality({ids[i] : i \in 1..Len(ids)}) = Len(ids)
  /\ \A i \in 1..Len(ids) - 1 : m[ids[i]] <= m[ids[i + 1]]
  /\ \A c \in C \ {ids[i] : i \in 1..Len(ids)} :
       IF Len(ids) = k THEN ~Gap(m[c], m[ids[k]]) ELSE ~Edge(m[c])

(* the k-th smallest measure over C (the largest if there are fewer); C non-empty *)
Sorted(C, m) == SetToSortSeq(C, LAMBDA a, b : m[a] < m[b] \/ (m[a] = m[b] /\ a < b))
KthMeasure(C, m, k) == m[Sorted(C, m)[LeastI(k, Cardinality(C))]]
Sure(C, m, k) == LET t == KthMeasure(C, m, k) IN {c \in C : m[c] < t}
Tied(C, m, k) == LET t == KthMeasure(C, m, k) IN {c \in C : m[c] = t}
(* every set that may be called "the k nearest" *)
NearestSets(C, m, k) ==
  IF C = {} THEN {{}}
  ELSE LET s == Sure(C, m, k) IN
       {s \cup x : x \in kSubset(LeastI(k, Cardinality(C)) - Cardinality(s), Tied(C, m, k))}
=============================================================================
