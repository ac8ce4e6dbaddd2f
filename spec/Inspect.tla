------------------------------ MODULE Inspect ------------------------------
(***************************************************************************)
(* Data inspection: what can be said about the columns of a frame.         *)
(* A column is [name, ty, v], v its cells: literals of numbers and truth   *)
(* values, code points of strings, lists of literals; null is "null",      *)
(* <<-1>> and <<"no">> respectively.                                       *)
(***************************************************************************)
EXTENDS Series
Ints == {"i64", "i32", "i8", "u8", "u32"}
Floats == {"f64", "f32"}
Numerics == Ints \cup Floats
Texts == {"str", "cat"}
Lists == {"lf", "li", "ls", "lb"}
NullOf(c) == IF c.ty \in Texts THEN <<-1>> ELSE IF c.ty \in Lists THEN <<"no">> ELSE "null"
Tall(c) == Len(c.v)
Known(c) == SelectSeq(c.v, LAMBDA x : x # NullOf(c))
NullCount(c) == Tall(c) - Len(Known(c))
Distinct(c) == {Known(c)[i] : i \in 1..Len(Known(c))}
(* with null as a value like the others *)
NUnique(c) == Cardinality({c.v[i] : i \in 1..Tall(c)})
Seqs(c) == LET K == Known(c) IN Eager([i \in 1..Len(K) |-> RP(K[i])])

(***************************************************************************)
(* Inferences: a column is in, out, or it is not said.                     *)
(***************************************************************************)
Say(b) == IF b THEN "in" ELSE "out"
Fuzz == RDiv(RI(1), RPow(RI(2), 40))
(* is a < b, where b was computed with rounding *)
Below(a, b) == IF RLt(RAbs(RSub(a, b)), RMul(Fuzz, RAdd(RI(1), RAbs(b)))) THEN "open" ELSE Say(RLt(a, b))
Either(p, q) == IF p = "in" \/ q = "in" THEN "in" ELSE IF p = "open" \/ q = "open" THEN "open" ELSE "out"
(* whether null, where there is one, counts as one of the k values is not said *)
KDistinct(c, k, nulls) ==
  LET d == Cardinality(Distinct(c)) IN
  IF NullCount(c) = 0 THEN Say(d = k) ELSE IF d = k - 1 THEN "open" ELSE Say(nulls /\ d = k)
HighNull(c, t) == LET s == RMul(RI(Tall(c)), t) IN IF Below(RI(NullCount(c)), s) = "in" THEN "out" ELSE IF Below(RI(NullCount(c)), s) = "open" THEN "open" ELSE "in"
FewValues(c, u, t, m) == Either(Say(u < m), Below(RI(u), RMul(RI(Tall(c)), t)))
Discrete(c, t, m) ==
  IF c.ty \in {"bool", "cat"} THEN "in"
  ELSE LET a == FewValues(c, Cardinality(Distinct(c)), t, m) b == FewValues(c, NUnique(c), t, m) IN IF a = b THEN a ELSE "open"
Unit(x) == RIsNum(x) /\ RLe(Z0, RP(x)) /\ RLe(RP(x), U1)
Tenth6 == RQ(1, 1000000)
(* the probabilities of the classes: not negative, summing to one *)
Shares1(L) ==
  IF \E i \in 1..Len(L) : L[i] = "null" THEN "open"
  ELSE IF \E i \in 1..Len(L) : ~RIsNum(L[i]) \/ RLt(RP(L[i]), Z0) THEN "out"
  ELSE LET d == RAbs(RSub(RSum([i \in 1..Len(L) |-> RP(L[i])]), U1)) IN
       IF RLt(RMul(RI(2), Tenth6), d) THEN "out" ELSE IF RLt(RDiv(Tenth6, RI(2)), d) THEN "open" ELSE "in"
Prob(c) ==
  LET K == Known(c) IN
  IF c.ty \notin Floats \cup {"lf"} THEN "out"
  ELSE IF Len(K) = 0 THEN "open"
  ELSE IF c.ty \in Floats THEN Say(\A i \in 1..Len(K) : Unit(K[i]))
  ELSE IF \E i \in 1..Len(K) : Len(K[i]) # Len(K[1]) \/ Shares1(K[i]) = "out" THEN "out"
  ELSE IF \E i \in 1..Len(K) : Shares1(K[i]) = "open" THEN "open" ELSE "in"
(* a question, and what it says of a column *)
Answer1(c, q) ==
  CASE q.q = "prob" -> Prob(c) [] q.q = "high" -> HighNull(c, RP(q.t)) [] q.q = "disc" -> Discrete(c, RP(q.t), q.m)
    [] q.q = "const" -> KDistinct(c, 1, q.inc) [] q.q = "binary" -> KDistinct(c, 2, q.inc) [] q.q = "k" -> KDistinct(c, q.k, q.inc)
(* the names answered *)
NamesOk(C, q, out) ==
  /\ \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
  /\ \A j \in 1..Len(out) : \E i \in 1..Len(C) : C[i].name = out[j]
  /\ \A i \in 1..Len(C) : LET a == Answer1(C[i], q) in == \E j \in 1..Len(out) : out[j] = C[i].name IN
                          a = "open" \/ (a = "in") = in

(***************************************************************************)
(* Rules, with three truth values.                                         *)
(***************************************************************************)
Compare(x, r) ==
  IF x = "null" THEN "n"
  ELSE LET a == RP(x) b == RP(r.val) IN
       IF (CASE r.cmp = "lt" -> RLt(a, b) [] r.cmp = "le" -> RLe(a, b) [] r.cmp = "gt" -> RLt(b, a) [] r.cmp = "ge" -> RLe(b, a) [] r.cmp = "ne" -> ~REq(a, b)) THEN "t" ELSE "f"
Col(C, name) == C[CHOOSE i \in 1..Len(C) : C[i].name = name]
Holds(C, r, i) == LET x == Col(C, r.col).v[i] IN IF r.cmp = "known" THEN (IF x = "null" THEN "f" ELSE "t") ELSE Compare(x, r)
(* the rows that break a rule, and the rules they break *)
Broken(C, R, i) == {k \in 1..Len(R) : Holds(C, R[k], i) = "f"}
Violators(C, R, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : Broken(C, R, i) # {})
(* an aggregate of a column *)
Agg(c, g) == LET S == Seqs(c) IN
             CASE g = "nulls" -> VI(NullCount(c)) [] g = "n" -> VI(NUnique(c)) [] S = <<>> -> Null
               [] g = "min" -> VR(Sorted(S)[1]) [] g = "max" -> VR(Sorted(S)[Len(S)])
AggHolds(c, r) == LET a == Agg(c, r.agg) IN IF r.cmp = "known" THEN (IF a = Null THEN "f" ELSE "t") ELSE IF a = Null THEN "n" ELSE LET x == a.v y == RP(r.val) IN
                  IF (CASE r.cmp = "lt" -> RLt(x, y) [] r.cmp = "le" -> RLe(x, y) [] r.cmp = "gt" -> RLt(y, x) [] r.cmp = "ge" -> RLe(y, x) [] r.cmp = "ne" -> ~REq(x, y)) THEN "t" ELSE "f"

(***************************************************************************)
(* Profiles.                                                               *)
(***************************************************************************)
(* nearest-rank quantiles: the sorted values whose rank may be meant *)
Nearest(S, q) ==
  LET n == Len(S) h == RMul(RI(n - 1), q) IN
  {Sorted(S)[i] : i \in {j \in 1..n : RLe(RAbs(RSub(RI(j - 1), h)), RAdd(RQ(1, 2), Fuzz))}}
Below2(S, b) == Cardinality({i \in 1..Len(S) : RLt(S[i], b)})
(* counts of the bins that are not empty; the bins' outer edges are the extremes *)
BinAt(x, lo, hi, k) == LET t == RMul(RDiv(RSub(x, lo), RSub(hi, lo)), RI(k)) IN IF RLe(RI(k), t) THEN k - 1 ELSE RFloor(t)
Bins(S, k) == LET lo == Sorted(S)[1] hi == Sorted(S)[Len(S)] IN
              SelectSeq([b \in 1..k |-> Cardinality({i \in 1..Len(S) : BinAt(S[i], lo, hi, k) = b - 1})], LAMBDA m : m > 0)
(* a value so near an edge of its bin that it may be counted with its neighbours *)
OnEdge(x, lo, hi, k) == LET t == RMul(RDiv(RSub(x, lo), RSub(hi, lo)), RI(k)) d == RSub(t, RI(RFloor(t))) e == RQ(1, 500) IN
                        ~REq(t, Z0) /\ ~REq(t, RI(k)) /\ (RLt(d, e) \/ RLt(RSub(U1, e), d))

(***************************************************************************)
(* Dependencies: a column is determined by another when nothing is left to *)
(* know about it.  D is a set of pairs <<by, column>>.                     *)
(***************************************************************************)
Determines(y, x) == \A i, j \in 1..Len(x) : y[i] = y[j] => x[i] = x[j]
RECURSIVE Reach(_, _)
Reach(D, X) == LET Y == X \cup {e[2] : e \in {f \in D : f[1] \in X}} IN IF Y = X THEN X ELSE Reach(D, Y)
Path(D, a, b) == b \in Reach(D, {e[2] : e \in {f \in D : f[1] = a}})
Acyclic(D) == \A e \in D : ~Path(D, e[1], e[1])
Redundant(D, e) == Path(D \ {e}, e[1], e[2])
(* the drawing of a dependency relation: what can be reached is the same, no arrow can be left out *)
Reduction(D) == {e \in D : ~Redundant(D, e)}
=============================================================================
