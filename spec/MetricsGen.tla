----------------------------- MODULE MetricsGen -----------------------------
(* Every small list of rows, read as errors, as a ranking, or as two samples of one variable. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Vals
VARIABLES rows, as
Code(r) == 7 * r[1] + r[2]
Init == /\ rows \in UNION {[1..n -> Vals \X Vals] : n \in 1..N}
        /\ \A i \in 1..(Len(rows) - 1) : Code(rows[i]) <= Code(rows[i + 1])
        /\ as \in {"err", "ndcg", "psi"}
Next == UNCHANGED <<rows, as>>
Col(j) == [i \in 1..Len(rows) |-> ToString(rows[i][j])]
H == (Code(rows[1]) + Len(rows))
Emit ==
  LET x == Col(1) y == Col(2) IN
  PrintT("CASE " \o ToJson(
    CASE as = "err" -> [op |-> "err", a |-> x, p |-> y, ad |-> "1", delta |-> IF H % 2 = 0 THEN "1" ELSE "1/2", ty |-> <<"u8", "f64", "i32">>[(H % 3) + 1], ctx |-> H % 8]
      [] as = "ndcg" -> [op |-> "ndcg", rel |-> x, score |-> y, grp |-> [i \in 1..Len(rows) |-> "0"], k |-> IF H % 2 = 0 THEN "2" ELSE "0", ties |-> TRUE]
      [] as = "psi" -> [op |-> "psi", base |-> x, new |-> y, k |-> IF H % 2 = 0 THEN "2" ELSE "4", lst |-> H % 2, ty |-> <<"f64", "i32">>[(H % 2) + 1], ctx |-> H % 5, ctx2 |-> H % 8]))
=============================================================================
