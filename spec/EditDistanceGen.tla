--------------------------- MODULE EditDistanceGen ---------------------------
(* Every pair of strings over a small alphabet, as requests for the driver. *)
EXTENDS EditDistance, TLC, Json
CONSTANTS Alphabet, N
Strs == UNION {[1..k -> Alphabet] : k \in 0..N}
AllStrs == SetToSeq(Strs)
Ops == {"leven", "leven_sim", "osa", "osa_sim", "dleven", "dleven_sim", "lcs", "lcs_sim", "fuzz",
        "hamming", "hamming_pad", "leven_filter", "hamming_filter", "jaro", "jw"}
VARIABLES s, op, sc
Init == s \in Strs /\ op \in Ops /\ sc \in BOOLEAN
Next == UNCHANGED <<s, op, sc>>
Case == [op |-> op, a |-> AllStrs, sc |-> sc, b |-> IF sc THEN <<s>> ELSE [i \in 1..Len(AllStrs) |-> s],
         bound |-> (Len(s) + 1) % 3, weight |-> "1/8", par |-> (Len(s) % 2 = 1), ch |-> 1]
Emit == PrintT("CASE " \o ToJson(Case))
=============================================================================
