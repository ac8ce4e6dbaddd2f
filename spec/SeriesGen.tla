----------------------------- MODULE SeriesGen -----------------------------
(* Every short series over a few values, read in each way. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, NB, Vals
VARIABLES s, as
Init == \/ /\ as \in {"basic", "perm", "reg", "sim", "ent", "ar"} /\ s \in UNION {[1..n -> Vals] : n \in (IF as \in {"basic", "ent"} THEN 1 ELSE 3)..N}
        \/ as \in {"streak", "lz"} /\ s \in UNION {[1..n -> {0, 1}] : n \in 0..NB}
Next == UNCHANGED <<s, as>>
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN 1 ELSE ((q[1] + 5 * Code(Tail(q))) % 1009)
H == Code(s)
Col == [i \in 1..Len(s) |-> ToString(s[i])]
Ty == <<"f64", "u8", "i64", "i32">>[(H % 4) + 1]
Emit ==
  PrintT("CASE " \o ToJson(
    CASE as = "basic" -> [op |-> as, s |-> Col, k |-> ToString((H % 2) + 1), top |-> ToString((H % 3) + 1), lo |-> "1/2", hi |-> "2", ddof |-> ToString(H % 2), ty |-> Ty, ctx |-> H % 8]
      [] as = "perm" -> [op |-> as, s |-> Col, tau |-> ToString((H % 3) + 1), d |-> ToString((H % 2) + 2), base |-> "2", ty |-> Ty, ctx |-> H % 8]
      [] as = "reg" -> [op |-> as, s |-> Col, m |-> "2", r |-> <<"1/4", "3/4", "3/2">>[(H % 3) + 1], scale |-> (H % 2 = 0), ty |-> Ty, ctx |-> H % 8]
      [] as = "sim" -> [op |-> as, s |-> Col, q |-> <<"0", "2">>, thr |-> <<"3/2", "7/2">>[(H % 2) + 1], metric |-> <<"sql2", "sqzl2">>[((H \div 2) % 2) + 1], ty |-> Ty, ctx |-> H % 8]
      [] as = "ent" -> [op |-> as, x |-> Col, y |-> [i \in 1..Len(s) |-> Col[Len(s) + 1 - i]], base |-> "2", ty |-> <<"str", "int">>[(H % 2) + 1], ctx |-> H % 8]
      [] as = "ar" -> [op |-> as, s |-> Col, lag |-> "1", bias |-> (H % 2 = 0), ty |-> Ty, ctx |-> H % 8]
      [] as \in {"streak", "lz"} -> [op |-> as, b |-> Col, ctx |-> H % 8]))
=============================================================================
