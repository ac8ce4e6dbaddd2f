----------------------------- MODULE InspectMC -----------------------------
(***************************************************************************)
(* A frame of two columns is read row by row with the little that has to   *)
(* be remembered for the inferences; what is remembered says the same of   *)
(* every prefix as the definitions do.  A reader then asks questions and   *)
(* does what it likes with the lists it got: the answers stay those of the *)
(* frame.                                                                  *)
(***************************************************************************)
EXTENDS Inspect
CONSTANTS N, Nums1, Texts1
VARIABLES a, b, acc, held, asked
vars == <<a, b, acc, held, asked>>
A == [name |-> "a", ty |-> "f64", v |-> a]
B == [name |-> "b", ty |-> "str", v |-> b]
None == [n |-> 0, nulls |-> 0, seen |-> {}, unit |-> TRUE, lo |-> "null", hi |-> "null"]
Init == a = <<>> /\ b = <<>> /\ acc = [x |-> None, y |-> None] /\ held = <<>> /\ asked = "no"
Fold(s, x, null, number) ==
  IF x = null THEN [s EXCEPT !.n = @ + 1, !.nulls = @ + 1]
  ELSE LET t == [s EXCEPT !.n = @ + 1, !.seen = @ \cup {x}] IN
       IF ~number THEN t
       ELSE [t EXCEPT !.unit = @ /\ RLe(Z0, RP(x)) /\ RLe(RP(x), U1),
                      !.lo = IF @ = "null" \/ RLt(RP(x), RP(@)) THEN x ELSE @, !.hi = IF @ = "null" \/ RLt(RP(@), RP(x)) THEN x ELSE @]
Read == /\ asked = "no" /\ Len(a) < N
        /\ \E x \in Nums1 \cup {"null"}, y \in Texts1 \cup {<<-1>>} :
             /\ a' = Append(a, x) /\ b' = Append(b, y)
             /\ acc' = [x |-> Fold(acc.x, x, "null", TRUE), y |-> Fold(acc.y, y, <<-1>>, FALSE)]
        /\ UNCHANGED <<held, asked>>
MCTexts == {<<97>>, <<>>}
MCText == {<<97>>}
Questions == {[q |-> "const", inc |-> FALSE], [q |-> "binary", inc |-> TRUE], [q |-> "prob", inc |-> FALSE]}
By(q) == LET s == acc.x t == acc.y D(u, k, inc) == Cardinality(u.seen) = k /\ (u.nulls = 0 \/ inc) IN
         IF q.q = "prob" THEN (IF s.n > s.nulls /\ s.unit THEN <<"a">> ELSE <<>>)
         ELSE LET k == IF q.q = "const" THEN 1 ELSE 2 IN (IF D(s, k, q.inc) THEN <<"a">> ELSE <<>>) \o (IF D(t, k, q.inc) THEN <<"b">> ELSE <<>>)
Ask == Len(a) > 0 /\ \E q \in Questions : held' = By(q) /\ asked' = q.q /\ UNCHANGED <<a, b, acc>>
(* the list is the reader's own *)
Spoil == asked \notin {"no", "spoilt"} /\ held' \in {<<>>, Append(held, "z")} /\ asked' = "spoilt" /\ UNCHANGED <<a, b, acc>>
Next == Read \/ Ask \/ Spoil
(* the answers are the frame's *)
Answers == \A q \in Questions : asked = q.q => NamesOk(<<A, B>>, q, held)
AccOk == /\ acc.x.n = Tall(A) /\ acc.x.nulls = NullCount(A) /\ acc.y.nulls = NullCount(B) /\ acc.x.seen = Distinct(A) /\ acc.y.seen = Distinct(B)
         /\ Len(Known(A)) > 0 => /\ acc.x.lo # "null" /\ REq(RP(acc.x.lo), Agg(A, "min").v) /\ REq(RP(acc.x.hi), Agg(A, "max").v)
(* what the questions have to do with each other *)
Ts == {"0", "1/4", "1/2", "3/4", "1"}
Laws ==
  /\ \A inc \in BOOLEAN, c \in {A, B} : ~(KDistinct(c, 1, inc) = "in" /\ KDistinct(c, 2, inc) = "in")
  /\ \A c \in {A, B} : \A k \in 1..3 : KDistinct(c, k, FALSE) = "in" => KDistinct(c, k, TRUE) = "in"
  /\ \A c \in {A, B} : \A s, t \in Ts : RLe(RP(s), RP(t)) /\ HighNull(c, RP(t)) = "in" => HighNull(c, RP(s)) # "out"
  /\ \A c \in {A, B} : \A s, t \in Ts : \A m \in 1..3 : RLe(RP(s), RP(t)) /\ Discrete(c, RP(s), m) = "in" => Discrete(c, RP(t), m + 1) # "out"
  /\ Prob(A) = "in" => RLe(Z0, RP(acc.x.lo)) /\ RLe(RP(acc.x.hi), U1)
RulesOf == << [name |-> "r1", col |-> "a", cmp |-> "ge", val |-> "0"], [name |-> "r2", col |-> "a", cmp |-> "known", val |-> "0"], [name |-> "r3", col |-> "a", cmp |-> "lt", val |-> "1"] >>
(* rules: one more rule never lets a row off; a row breaks the rules together iff it breaks one of them *)
RuleLaws == \A k \in 0..2 : LET R == SubSeq(RulesOf, 1, k) Q == SubSeq(RulesOf, 1, k + 1) IN
              \A i \in 1..Len(a) : /\ Broken(<<A>>, R, i) \subseteq Broken(<<A>>, Q, i)
                                   /\ (Broken(<<A>>, Q, i) # {}) = (\E j \in 1..(k + 1) : Holds(<<A>>, Q[j], i) = "f")
ProfileLaws ==
  Len(Known(A)) > 0 => LET S == Seqs(A) lo == Sorted(S)[1] hi == Sorted(S)[Len(S)] IN
    /\ \A q \in {"0", "1/20", "1/4", "3/4", "1"} : Nearest(S, RP(q)) # {} /\ \A x \in Nearest(S, RP(q)) : \E i \in 1..Len(S) : REq(x, S[i])
    /\ (\A x \in Nearest(S, Z0) : REq(x, lo)) /\ \A x \in Nearest(S, U1) : REq(x, hi)
    /\ RLt(lo, hi) => \A k \in 1..4 : LET H == Bins(S, k) IN ISum(H, Len(H)) = Len(S)
=============================================================================
