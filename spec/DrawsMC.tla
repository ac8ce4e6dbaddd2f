------------------------------ MODULE DrawsMC ------------------------------
(***************************************************************************)
(* Two machines.  (a) The enumerator that steps from one k-combination to  *)
(* its lexicographic successor visits every k-subset exactly once, in the  *)
(* order Combos states.  (b) A query engine evaluates a seeded random      *)
(* column over a frame; it cuts the frame into blocks only where the       *)
(* column is declared elementwise, and a generator restarts with each      *)
(* call.  Every row then holds its own draw of the one stream exactly if   *)
(* the column is not declared elementwise.                                 *)
(***************************************************************************)
EXTENDS Draws, TLC
CONSTANTS N, Elementwise
VARIABLES mode, n, k, cur, out, fin
vars == <<mode, n, k, cur, out, fin>>
Init == \/ /\ mode = "comb" /\ n \in 0..N /\ k \in 0..N /\ k <= n
           /\ cur = [i \in 1..k |-> i] /\ out = <<>> /\ fin = FALSE
        \/ /\ mode = "draw" /\ n \in 0..N /\ k = 0 /\ cur = <<>> /\ out = <<>> /\ fin = FALSE
Step ==    \* deliver the current combination, then advance
  /\ mode = "comb" /\ ~fin /\ out' = Append(out, cur)
  /\ LET M == {i \in 1..k : cur[i] < n - k + i} IN
       IF M = {} THEN fin' = TRUE /\ UNCHANGED cur
       ELSE LET i == CHOOSE j \in M : \A l \in M : l <= j IN
            fin' = FALSE /\ cur' = [j \in 1..k |-> IF j < i THEN cur[j] ELSE cur[i] + 1 + (j - i)]
  /\ UNCHANGED <<mode, n, k>>
(* evaluate one more block: draw number i of the stream is i itself *)
Block == /\ mode = "draw" /\ ~fin
         /\ \E b \in (IF Elementwise THEN 1..(n - Len(out)) ELSE {n}) : out' = out \o [i \in 1..b |-> i]
         /\ fin' = (Len(out') = n) /\ UNCHANGED <<mode, n, k, cur>>
Next == Step \/ Block \/ (fin /\ UNCHANGED vars)
ByCombos == mode = "comb" => \A i \in 1..Len(out) : out[i] = Combos(1, n, k)[i]
Complete == (mode = "comb" /\ fin) => /\ out = Combos(1, n, k)
                                      /\ {Range(out[i]) : i \in 1..Len(out)} = {S \in SUBSET (1..n) : Cardinality(S) = k}
                                      /\ Len(out) = Cardinality({S \in SUBSET (1..n) : Cardinality(S) = k})
OwnDraw == (mode = "draw" /\ fin) => Len(out) = n /\ \A i \in 1..n : out[i] = i
ASSUME \A a, b \in 0..3 : {Prods(a, b)[i] : i \in 1..(a * b)} = (1..a) \X (1..b)
(* the distribution functions: binomial against its definition by enumeration, normal and exponential against known values *)
Successes(n0, S) == Cardinality(S)
ASSUME \A n0 \in 1..4, j \in 0..4 : LET p == RQ(1, 3) IN
         j > n0 \/ RLe(RAbs(RSub(BinomialCdf(n0, p, j),
             RSum([i \in 1..(j + 1) |-> RMul(RI(Cardinality({S \in SUBSET (1..n0) : Cardinality(S) = i - 1})), RMul(RPow(p, i - 1), RPow(RSub(U1, p), n0 - i + 1)))]))), TwoPow(-80))
ASSUME RLe(RAbs(RSub(ExpCdf(RI(2), RDiv(Ln2, RI(2))), RQ(1, 2))), TwoPow(-80)) /\ REq(GaussCdf(RI(3), RI(2), RI(3)), RQ(1, 2))
ASSUME REq(DiscreteCdf(RI(0), RI(4), RI(1)), RQ(1, 2)) /\ REq(UniformCdf(RI(-1), RI(1), RI(0)), RQ(1, 2))
=============================================================================
