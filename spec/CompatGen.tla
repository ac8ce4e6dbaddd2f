----------------------------- MODULE CompatGen -----------------------------
(* every function, its column arguments held in every pair of containers *)
EXTENDS Compat, SequencesExt, Json
CONSTANTS NF, Share
VARIABLES fn, a, b, size, scal
Cs == SetToSeq(Containers)
Init == fn \in 0..(NF - 1) /\ a \in DOMAIN Cs /\ b \in DOMAIN Cs /\ size \in 0..3 /\ scal \in BOOLEAN
Next == UNCHANGED <<fn, a, b, size, scal>>
H == (fn * 7) + (a * 11) + (b * 29) + (size * 5) + (IF scal THEN 3 ELSE 0)
Emit == H % Share = 0 => PrintT("CASE " \o ToJson([op |-> "call", fn |-> fn, how |-> <<Cs[a], Cs[b]>>, size |-> size, seed |-> H % 97, f32 |-> (H \div 5) % 7 = 0, numpy_scalars |-> scal]))
=============================================================================
