------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Sampling, splitting and partitioning: which sets of rows may come out.  *)
(* Rows are numbered 1..n; a result is a set (or a sequence of sets) of    *)
(* row numbers.  A size given as a share of the rows is the share rounded  *)
(* down; where the share is a whole number up to the rounding of floating  *)
(* point, one row less is allowed.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat
SetOf(q) == {q[i] : i \in 1..Len(q)}
IsSeq1(q) == Cardinality(SetOf(q)) = Len(q)                    \* no repetition
U1 == RI(1)
Fuzz == RDiv(U1, RPow(RI(2), 40))
ShareSizes(n, r) == LET x == RMul(RI(n), r) IN {RFloor(x), RFloor(RSub(x, Fuzz)), RFloor(RAdd(x, Fuzz))} \cap 0..n
MinI(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* a sample size: "count" m rows (or all, if there are fewer), or "rate" a share *)
BadValue(v) == IF v.k = "count" THEN v.m <= 0 ELSE RSgn(RP(v.r)) <= 0 \/ RLe(U1, RP(v.r))
Sizes(n, v) == IF v.k = "count" THEN {MinI(n, v.m)} ELSE ShareSizes(n, RP(v.r))
SampleOk(n, v, S) == S \subseteq 1..n /\ Cardinality(S) \in Sizes(n, v)

(* a split by ratios: every row in exactly one part, sizes off by less than one row *)
RECURSIVE RTotal(_)
RTotal(q) == IF q = <<>> THEN RI(0) ELSE RAdd(RP(Head(q)), RTotal(Tail(q)))
Whole(q) == RLe(RAbs(RSub(RTotal(q), U1)), RDiv(U1, RPow(RI(2), 45)))
BadRatios(q) == IF Len(q) = 1 THEN RSgn(RP(q[1])) <= 0 \/ RLe(U1, RP(q[1])) ELSE ~Whole(q) \/ \E i \in 1..Len(q) : RSgn(RP(q[i])) < 0
Exactly(n, parts) == /\ UNION SetOf(parts) = 1..n
                     /\ \A i, j \in 1..Len(parts) : i # j => parts[i] \cap parts[j] = {}
CloseTo(n, r, m) == LET x == RMul(RI(n), r) IN RLt(RAbs(RSub(RI(m), x)), RSub(U1, Fuzz)) \/ m \in ShareSizes(n, r)
SplitOk(n, q, parts) ==
  IF Len(q) = 1 THEN Len(parts) = 2 /\ Exactly(n, parts) /\ Cardinality(parts[1]) \in ShareSizes(n, RP(q[1]))
  ELSE /\ Len(parts) = Len(q) /\ Exactly(n, parts)
       /\ \A i \in 1..Len(q) : CloseTo(n, RP(q[i]), Cardinality(parts[i]))
       /\ (\A i \in 1..Len(q) : REq(RMul(RI(n), RP(q[i])), RI(RFloor(RMul(RI(n), RP(q[i])))))) => \A i \in 1..Len(q) : REq(RMul(RI(n), RP(q[i])), RI(Cardinality(parts[i])))

(* equally many rows of each value of g, within each stratum of the controls *)
Stratum(ctrl, i, n) == {j \in 1..n : \A c \in 1..Len(ctrl) : ctrl[c][j] = ctrl[c][i]}
Volume(g, ctrl, target, i) ==
  LET n == Len(g) S == Stratum(ctrl, i, n) m == MinOf({Cardinality({k \in S : g[k] = g[j]}) : j \in S}) IN IF target < 0 THEN m ELSE MinI(m, target)
NeutralOk(g, ctrl, target, S) ==
  LET n == Len(g) IN
  /\ S \subseteq 1..n
  /\ \A i \in 1..n : Cardinality({j \in S : j \in Stratum(ctrl, i, n) /\ g[j] = g[i]}) = Volume(g, ctrl, target, i)

(* rows where a condition holds are sampled down, the others stay *)
Holds(c) == {i \in 1..Len(c) : c[i] = "true"}
DownOk(n, conds, S) ==
  LET H == [k \in 1..Len(conds) |-> Holds(conds[k].c)] others(k) == UNION {H[j] : j \in (1..Len(conds)) \ {k}} IN
  /\ S \subseteq 1..n
  /\ (1..n) \ (UNION SetOf(H)) \subseteq S                     \* no condition: kept
  /\ \A k \in 1..Len(conds) :
       LET kept == Cardinality(S \cap H[k]) IN
       IF H[k] \cap others(k) = {} THEN IF conds[k].v.k = "count" \/ H[k] # {} THEN kept \in Sizes(Cardinality(H[k]), conds[k].v) ELSE kept = 0
       ELSE \E m \in Sizes(Cardinality(H[k]), conds[k].v) : kept <= m /\ Cardinality((S \cap H[k]) \ others(k)) <= m

(* k columns besides the kept ones, in the order of the pool *)
ColsOk(all, k, keep, out) ==
  LET pool == SelectSeq(all, LAMBDA c : c \notin SetOf(keep)) IN
  IF Len(pool) < k THEN FALSE
  ELSE /\ IsSeq1(out) /\ Len(out) = Len(keep) + k
       /\ SubSeq(out, 1, Len(keep)) = keep
       /\ \E I \in SUBSET (1..Len(pool)) : Cardinality(I) = k /\ SelectSeq(pool, LAMBDA c : \E i \in I : pool[i] = c) = SubSeq(out, Len(keep) + 1, Len(out))

(* the partition by columns: parts by name, in order of first appearance, each with its rows in order *)
RECURSIVE JoinS(_, _)
JoinS(q, sep) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinS(Tail(q), sep)
Key(cols, i) == [c \in 1..Len(cols) |-> cols[c][i]]
First(cols, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : \A j \in 1..(i - 1) : Key(cols, j) # Key(cols, i))
PartRows(cols, n, i) == SelectSeq([j \in 1..n |-> j], LAMBDA j : Key(cols, j) = Key(cols, i))
Shown(v) == IF v = "null" THEN "None" ELSE IF v = "true" THEN "True" ELSE IF v = "false" THEN "False" ELSE v
NameOf(cols, i, sep) == JoinS([c \in 1..Len(cols) |-> Shown(cols[c][i])], sep)
PartNames(cols, n, sep) == LET f == First(cols, n) IN [k \in 1..Len(f) |-> NameOf(cols, f[k], sep)]
Ambiguous(cols, n, sep) == ~IsSeq1(PartNames(cols, n, sep))
=============================================================================
