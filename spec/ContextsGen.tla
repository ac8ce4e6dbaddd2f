---------------------------- MODULE ContextsGen ----------------------------
(* every expression in every context, over frames grouped and cut in many ways *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NF, G, Share
VARIABLES fn, cx, g, nulls
Ctxs == <<"select", "lazy", "streaming", "column", "column_streaming", "filter_before", "filter_after", "head_after", "tail_after", "twice",
          "group", "group_streaming", "group_sorted", "group_dynamic", "window", "window_join", "window_explode", "concat", "joined", "mixed", "inputs", "inputs_sliced">>
Seqs == UNION {[1..k -> 1..3] : k \in 1..G}
(* labels in order of first appearance *)
Canon(s) == \A i \in 1..Len(s) : s[i] = 1 \/ \E j \in 1..(i - 1) : s[j] = s[i] - 1
Pats == {s \in Seqs : Canon(s)}
Init == /\ fn \in 0..(NF - 1) /\ cx \in 1..Len(Ctxs) /\ g \in Pats /\ nulls \in {0, 1}
Next == UNCHANGED <<fn, cx, g, nulls>>
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN 1 ELSE (q[1] + 5 * Code(Tail(q))) % 1009
H == Code(g) * 7 + fn * 13 + cx * 29 + nulls * 3
Emit == H % Share = 0 =>
  PrintT("CASE " \o ToJson([op |-> "ctx", fn |-> fn, ctx |-> Ctxs[cx], g |-> g, nulls |-> nulls, how |-> H % 3, layout |-> (H \div 3) % 5, seed |-> H % 101, f32 |-> ((H \div 7) % 6 = 0)]))
=============================================================================
