---------------------------- MODULE SamplingGen ----------------------------
(* Every short frame with each kind of sampling, splitting and partitioning. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Share
VARIABLES op, g, h, p
Rates == <<"1/2", "1/3", "1/4", "1/10", "3/10", "2/3", "99/100", "0", "1", "-1/4">>
Splits == << <<"1/2">>, <<"1/3">>, <<"9/10">>, <<"1/100">>, <<"1">>, <<"0">>, <<"1/2", "1/2">>, <<"7/10", "2/10", "1/10">>, <<"1/3", "1/3", "1/3">>, <<"6/10", "3/10", "1/10">>,
             <<"1/10", "1/5", "7/10">>, <<"1/2", "1/3">>, <<"1/2", "1/2", "1/2">>, <<"1/4", "1/4", "1/4", "1/4">>, <<"3/4", "0", "1/4">> >>
Counts == <<1, 2, 3, 7, 0, -1>>
Init == /\ op \in {"sample", "split", "neutral", "down", "part"}
        /\ \E n \in 0..N : /\ g \in [1..n -> IF op \in {"sample", "split"} THEN {"a"} ELSE {"a", "b", "null"}]
                           /\ h \in [1..n -> IF op \in {"neutral", "part"} THEN {"s", "a"} ELSE {"s"}]
        /\ p \in 1..(IF op = "split" THEN Len(Splits) ELSE 16)
Next == UNCHANGED <<op, g, h, p>>
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN 1 ELSE ((IF q[1] = "a" THEN 1 ELSE IF q[1] = "b" THEN 2 ELSE IF q[1] = "s" THEN 3 ELSE 5) + 7 * Code(Tail(q))) % 1009
H == Code(g) + 31 * Code(h) + p
Value == IF p <= 10 THEN [k |-> "rate", m |-> 0, r |-> Rates[p]] ELSE [k |-> "count", m |-> Counts[p - 10], r |-> "0"]
Flag(v) == [i \in 1..Len(g) |-> IF g[i] = v THEN "true" ELSE IF g[i] = "null" THEN "null" ELSE "false"]
Base == [n |-> Len(g), g |-> g, h |-> h, seed |-> H % 13, lazy |-> (H % 3 = 0), layout |-> (H % 4), name |-> <<"id", "__id", "count", "g", "literal">>[(H % 5) + 1]]
With(r) == r @@ Base
Emit ==
  (Len(g) <= 2 \/ H % Share = 0) =>
  PrintT("CASE " \o ToJson(
    CASE op = "sample" -> With([op |-> op, v |-> Value])
      [] op = "split" -> With([op |-> op, q |-> Splits[p], single |-> (Len(Splits[p]) = 1 /\ H % 2 = 0)])
      [] op = "neutral" -> With([op |-> op, ctrl |-> (IF p % 3 = 0 THEN <<>> ELSE <<"h">>), target |-> (IF p > 12 THEN -1 ELSE p % 4), as |-> (p % 2)])
      [] op = "down" -> With([op |-> op, conds |-> (IF p % 2 = 0 THEN <<[c |-> Flag("a"), v |-> Value]>> ELSE <<[c |-> Flag("a"), v |-> Value], [c |-> Flag("b"), v |-> [k |-> "count", m |-> 1, r |-> "0"]]>>), as |-> (H % 2)])
      [] op = "part" -> With([op |-> op, by |-> <<<<"g">>, <<"h">>, <<"g", "h">>, <<>>>>[(p % 4) + 1], tys |-> <<<<"str", "str">>, <<"cat", "str">>, <<"str", "cat">>, <<"int", "str">>>>[((p - 1) \div 4) + 1], sep |-> <<"|", "a", "">>[(H % 3) + 1], head |-> (H % 3), as |-> (H % 2)])))
=============================================================================
