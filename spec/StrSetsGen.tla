----------------------------- MODULE StrSetsGen -----------------------------
EXTENDS StrSets, TLC, Json
CONSTANTS Alphabet, N
Strs(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
AllStrs == SetToSeq(Strs(N))
VARIABLES c
Sims == {[op |-> o, a |-> AllStrs, sc |-> sc, b |-> IF sc THEN <<s>> ELSE [i \in 1..Len(AllStrs) |-> s], ngram |-> n,
          alpha |-> "1/2", beta |-> "2", par |-> (n = 2), ch |-> 1] :
          o \in {"jaccard", "overlap", "dice", "tversky"}, s \in Strs(N), sc \in BOOLEAN, n \in 1..3}
Near == {[op |-> "nearest", a |-> col, word |-> w, metric |-> m, thr |-> t, ch |-> 1] :
          col \in UNION {[1..k -> Strs(1) \cup {NoString}] : k \in 1..2}, w \in Strs(1), m \in {"lv", "hamming"}, t \in 1..2}
Init == c \in Sims \cup Near
Next == UNCHANGED c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
