----------------------------- MODULE SamplingMC -----------------------------
(***************************************************************************)
(* Sampling by shuffled ranks.  A shuffle draws the ranks 0..n-1 of the    *)
(* rows one after the other (within each group separately, for the grouped *)
(* samples); rows are then taken by comparing ranks with a number.  Every  *)
(* result is one the specification allows, and every result the            *)
(* specification allows is produced by some shuffle.                       *)
(***************************************************************************)
EXTENDS Sampling, TLC
CONSTANTS N, Groups, Ratios, Counts
VARIABLES mode, g, h, par, rank, left
vars == <<mode, g, h, par, rank, left>>
n == Len(g)
Plain == {"sample", "split"}
Shares == {<<a>> : a \in Ratios} \cup {<<a, b, c>> \in Ratios \X Ratios \X Ratios : Whole(<<a, b, c>>)}
Init == /\ mode \in {"sample", "split", "neutral", "down"}
        /\ g \in UNION {[1..m -> IF mode \in Plain THEN {"x"} ELSE Groups] : m \in 0..N}
        /\ h \in [1..n -> IF mode = "neutral" THEN {"s", "t"} ELSE {"s"}]
        /\ par \in (CASE mode = "sample" -> {[k |-> "count", m |-> m, r |-> "0"] : m \in Counts} \cup {[k |-> "rate", m |-> 0, r |-> r] : r \in Ratios}
                      [] mode = "split" -> {[k |-> "ratios", m |-> 0, r |-> q] : q \in Shares}
                      [] mode = "neutral" -> {[k |-> "target", m |-> m, r |-> "0"] : m \in Counts \cup {0 - 1}}
                      [] mode = "down" -> {[k |-> "count", m |-> m, r |-> "0"] : m \in Counts} \cup {[k |-> "rate", m |-> 0, r |-> r] : r \in Ratios})
        /\ rank = <<>> /\ left = 0
(* the group within which row i is ranked *)
Mates(i) == IF mode \in Plain THEN 1..n ELSE IF mode = "neutral" THEN {j \in 1..n : g[j] = g[i] /\ h[j] = h[i]} ELSE {j \in 1..n : (g[j] = "a") = (g[i] = "a")}
Draw == LET i == Len(rank) + 1 IN
        /\ i <= n
        /\ \E r \in 0..(Cardinality(Mates(i)) - 1) : (\A j \in Mates(i) : j < i => rank[j] # r) /\ rank' = Append(rank, r)
        /\ UNCHANGED <<mode, g, h, par, left>>
Next == Draw \/ (Len(rank) = n /\ UNCHANGED vars)
Size(m) == IF par.k = "count" THEN MinI(m, par.m) ELSE RFloor(RMul(RI(m), RP(par.r)))
RECURSIVE UpTo(_, _)
UpTo(q, i) == IF i = 0 THEN RI(0) ELSE RAdd(UpTo(q, i - 1), RP(q[i]))
Cut(i) == IF i = Len(par.r) THEN n ELSE RFloor(RMul(RI(n), UpTo(par.r, i)))
Parts == IF Len(par.r) = 1 THEN LET c == RFloor(RMul(RI(n), RP(par.r[1]))) IN << {i \in 1..n : rank[i] < c}, {i \in 1..n : rank[i] >= c} >>
         ELSE [i \in 1..Len(par.r) |-> {j \in 1..n : Cut(i - 1) <= rank[j] /\ rank[j] < Cut(i)}]
Taken == CASE mode = "sample" -> {i \in 1..n : rank[i] < Size(n)}
           [] mode = "neutral" -> {i \in 1..n : rank[i] < Volume(g, <<h>>, par.m, i)}
           [] mode = "down" -> {i \in 1..n : g[i] # "a" \/ rank[i] < Size(Cardinality(Mates(i)))}
Done == Len(rank) = n
Conds == << [c |-> [i \in 1..n |-> IF g[i] = "a" THEN "true" ELSE IF g[i] = "null" THEN "null" ELSE "false"], v |-> par] >>
Allowed == Done => CASE mode = "sample" -> SampleOk(n, par, Taken)
                     [] mode = "split" -> SplitOk(n, par.r, Parts)
                     [] mode = "neutral" -> NeutralOk(g, <<h>>, par.m, Taken)
                     [] mode = "down" -> DownOk(n, Conds, Taken)
(* every allowed sample is one that some ranks take *)
Perms(S) == {f \in [S -> 0..(Cardinality(S) - 1)] : \A a, b \in S : a # b => f[a] # f[b]}
ASSUME \A m \in 0..4, c \in 1..5 : LET v == [k |-> "count", m |-> c, r |-> "0"] IN
         {S \in SUBSET (1..m) : SampleOk(m, v, S)} = {{i \in 1..m : f[i] < MinI(m, c)} : f \in Perms(1..m)}
ASSUME \A m \in 0..4, r \in Ratios : LET v == [k |-> "rate", m |-> 0, r |-> r] IN
         {{i \in 1..m : f[i] < RFloor(RMul(RI(m), RP(r)))} : f \in Perms(1..m)} \subseteq {S \in SUBSET (1..m) : SampleOk(m, v, S)}
(* names of parts collide only if the keys differ in where the separator is *)
ASSUME LET K == {"a", "b", "a|b", "null"} IN \A x, y \in K : LET cols == << <<x, y>> >> IN ~Ambiguous(cols, 2, "|")
ASSUME Ambiguous(<< <<"a|b", "a">>, <<"c", "b|c">> >>, 2, "|") /\ ~Ambiguous(<< <<"a|b", "a">>, <<"c", "b|c">> >>, 2, "-")
=============================================================================
