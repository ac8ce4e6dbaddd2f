---------------------------- MODULE PipelineGen ----------------------------
(* The model's fitted pipelines, over a share of its training frames, as cases for the implementation. *)
EXTENDS PipelineMC, Json
CONSTANT Share
Txt(w) == CASE w.k = "null" -> "null" [] w.k = "str" -> w.s [] OTHER -> RStr(w.v)
AsFrame(rows) == LET F == Of(rows) IN [j \in 1..3 |-> [n |-> F[j].n, k |-> F[j].k, v |-> [i \in 1..Len(F[j].v) |-> Txt(F[j].v[i])]]]
Code1(c) == c[1] * 31 + c[2] * 7 + c[3]
RECURSIVE Sum1(_)
Sum1(q) == IF q = <<>> THEN 0 ELSE (Code1(Head(q)) + 5 * Sum1(Tail(q))) % 1009
RECURSIVE Idx(_, _)
Order == <<"mean", "mode", "modes", "cond", "all", "std", "unit", "abs", "win", "hot", "rank", "tenc", "woe", "lin", "keep", "twice", "rename", "nostr">>
Idx(k, i) == IF Order[i] = k THEN i ELSE Idx(k, i + 1)
RECURSIVE Sum2(_)
Sum2(q) == IF q = <<>> THEN 0 ELSE (Idx(Head(q), 1) + 19 * Sum2(Tail(q))) % 1009
Hash == (Sum1(train) * 37 + Sum2(pipe) * 3 + Len(train)) % Share
Emit == (pipe # <<>> /\ Hash = 0) =>
  PrintT("CASE " \o ToJson([op |-> "pipe", train |-> AsFrame(train), tests |-> [t \in 1..Len(Tests) |-> AsFrame(Tests[t])],
    opts |-> [target |-> "y", exclude |-> <<"y">>, case |-> "none", ensure_in |-> FALSE, ensure_out |-> TRUE],
    steps |-> [i \in 1..Len(pipe) |-> StepOf(pipe[i])], names |-> <<>>, layout |-> 1, lazy |-> (Sum1(train) % 2 = 0), file |-> FALSE, direct |-> FALSE, f32 |-> FALSE, words |-> Letters]))
=============================================================================
