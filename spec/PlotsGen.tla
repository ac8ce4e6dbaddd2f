----------------------------- MODULE PlotsGen -----------------------------
(* Every shape of call, and curves of every small set of scored rows. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Share
VARIABLE c
Curves == [fn : {"roc", "cal"}, one : {-1, 6, 7}, name : BOOLEAN, many : BOOLEAN, nnames : {-1, 0, 1, 2}, lens : {<<>>, <<6>>, <<7>>, <<6, 6>>, <<6, 7>>}, target : {6}]
(* no curve at all, and a list next to a single curve, are not said to be wrong *)
Said(q) == /\ q.one >= 0 => ~q.many /\ q.nnames = -1
           /\ ~q.many => q.lens = <<>>
           /\ q.one = -1 => ~q.name
           /\ ~(q.many /\ q.lens = <<>>)
           /\ (q.fn = "cal" => TRUE)
Dists == [fn : {"dist"}, bins : {-1, 0, 1, 2, 3, 10}, over : BOOLEAN, df : BOOLEAN, col : BOOLEAN, density : BOOLEAN]
Pcas == [fn : {"pca"}, nfeat : 0..4, dim : 0..4]
Calls == {q \in Curves : Said(q)} \cup Dists \cup Pcas
Rows == UNION {[1..n -> (0..1) \X (0..2)] : n \in 2..N}
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN 1 ELSE (q[1][1] + 2 * q[1][2] + 7 * Code(Tail(q))) % 10007
Score == <<"1/4", "1/2", "3/4">>
RocCase(q, h) == [op |-> "roc", target |-> [i \in DOMAIN q |-> q[i][1]], preds |-> << [name |-> "m", v |-> [i \in DOMAIN q |-> Score[q[i][2] + 1]]] >>, single |-> (h % 2 = 0), show |-> (h % 3 # 0),
               dec |-> 1 + (h % 4), ty |-> "f64", tty |-> (<<"list", "bool", "i64", "u8">>)[1 + (h % 4)], anon |-> (h % 5 = 0), layout |-> h % 4]
Init == \/ \E q \in Calls : c = [op |-> "call", call |-> q]
        \/ \E q \in Rows : Code(q) % Share = 0 /\ c = RocCase(q, Code(q) \div Share)
Next == UNCHANGED c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
