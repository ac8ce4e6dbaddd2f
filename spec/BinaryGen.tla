----------------------------- MODULE BinaryGen -----------------------------
(* Every bag of up to N rows over three scores, with thresholds at, between, above and below them. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES rows, thr
Key(r) == 4 * r[1] + r[2]
Init == /\ rows \in UNION {[1..n -> (0..1) \X (1..3)] : n \in 1..N}
        /\ \A i \in 1..(Len(rows) - 1) : Key(rows[i]) <= Key(rows[i + 1])
        /\ thr \in {"1/8", "1/2", "5/8", "7/8"}
Next == UNCHANGED <<rows, thr>>
Frac(x) == CASE x = 1 -> "1/4" [] x = 2 -> "1/2" [] OTHER -> "3/4"
Emit == PrintT("CASE " \o ToJson([op |-> "binary", a |-> [i \in 1..Len(rows) |-> ToString(rows[i][1])], s |-> [i \in 1..Len(rows) |-> Frac(rows[i][2])],
                                  c |-> [i \in 1..Len(rows) |-> "1"], thr |-> thr, ctx |-> (Len(rows) + Key(rows[1])) % 8, sh |-> Key(rows[Len(rows)]), ty |-> "f64"]))
=============================================================================
