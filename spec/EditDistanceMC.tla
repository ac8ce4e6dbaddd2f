--------------------------- MODULE EditDistanceMC ---------------------------
(***************************************************************************)
(* Design check.  The operational meaning of an edit distance is a state   *)
(* machine: the current string is edited one operation at a time, and the  *)
(* distance to a string is the number of steps after which the machine     *)
(* first reaches it.  TLC explores breadth first (one worker), so the      *)
(* level at which a string is first found is that number; the recurrences  *)
(* used to judge the implementation must agree with it.                    *)
(***************************************************************************)
EXTENDS EditDistance, TLC
CONSTANTS Alphabet, SrcLen, MaxStr, Mode       \* Mode: "lev", "dam", "indel"
Strs(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
VARIABLES src, cur
Init == src \in Strs(SrcLen) /\ cur = src
Insert == Len(cur) < MaxStr /\ \E i \in 0..Len(cur), c \in Alphabet : cur' = SubSeq(cur, 1, i) \o <<c>> \o SubSeq(cur, i + 1, Len(cur))
Delete == \E i \in 1..Len(cur) : cur' = SubSeq(cur, 1, i - 1) \o SubSeq(cur, i + 1, Len(cur))
Substitute == Mode # "indel" /\ \E i \in 1..Len(cur), c \in Alphabet : cur' = [cur EXCEPT ![i] = c]
Transpose == Mode = "dam" /\ \E i \in 1..Len(cur) - 1 : cur' = [cur EXCEPT ![i] = cur[i + 1], ![i + 1] = cur[i]]
Next == (Insert \/ Delete \/ Substitute \/ Transpose) /\ UNCHANGED src
Steps == TLCGet("level") - 1
(* intermediate strings never need to be longer than the longer end *)
DistanceIsSteps ==
  CASE Mode = "lev" -> Lev(src, cur) = Steps
    [] Mode = "dam" -> DamLev(src, cur) = Steps
    [] Mode = "indel" -> Indel(src, cur) = Steps

(* relations between the distances, and the axioms of a metric *)
Laws ==
  LET s == src t == cur IN
  /\ Lev(s, t) = LevRec(s, t) /\ Lcs(s, t) = LcsRec(s, t) /\ Osa(s, t) = OsaRec(s, t)
  /\ \A f \in {1, 2, 3, 4, 5} :
       LET d(x, y) == CASE f = 1 -> Lev(x, y) [] f = 2 -> DamLev(x, y) [] f = 3 -> Indel(x, y) [] f = 4 -> Osa(x, y) [] f = 5 -> HammingPad(x, y)
       IN  /\ d(s, t) = d(t, s)
           /\ (d(s, t) = 0) <=> (s = t)
           /\ f # 4 => \A u \in Strs(2) : d(s, t) <= d(s, u) + d(u, t)
  /\ DamLev(s, t) <= Osa(s, t) /\ Osa(s, t) <= Lev(s, t) /\ Lev(s, t) <= Indel(s, t)
  /\ Lev(s, t) <= HammingPad(s, t)
  /\ Lev(s, t) <= MaxLen(s, t) /\ Lev(s, t) >= MaxLen(s, t) - Min2(Len(s), Len(t))
  /\ LcsDist(s, t) <= Lev(s, t) /\ LcsDist(s, t) >= 0
  /\ RLe(RI(0), Jaro(s, t)) /\ RLe(Jaro(s, t), RI(1)) /\ (REq(Jaro(s, t), RI(1)) <=> s = t)
  /\ REq(Jaro(s, t), Jaro(t, s))
  /\ RLe(Jaro(s, t), JaroWinkler(s, t, RQ(1, 10))) /\ RLe(JaroWinkler(s, t, RQ(1, 4)), RI(1))
=============================================================================
