------------------------------- MODULE HypGen -------------------------------
(* Every small list of rows, read as two samples or as two columns of labels, for each test and alternative. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Vals
VARIABLES rows, as
Code(r) == 7 * r[1] + r[2]
Init == /\ rows \in UNION {[1..n -> Vals \X Vals] : n \in 2..N}
        /\ \A i \in 1..(Len(rows) - 1) : Code(rows[i]) <= Code(rows[i + 1])
        /\ as \in {"welch", "pooled", "mw", "chi", "f"}
Next == UNCHANGED <<rows, as>>
Col(j) == [i \in 1..Len(rows) |-> ToString(rows[i][j])]
H == (Code(rows[1]) + 3 * Code(rows[Len(rows)]) + Len(rows))
Alt == <<"two", "less", "greater">>[(H % 3) + 1]
Emit ==
  LET x == Col(1) y == Col(2) IN
  PrintT("CASE " \o ToJson(
    CASE as \in {"welch", "pooled", "mw"} -> [op |-> as, x |-> x, y |-> y, alt |-> Alt, ty |-> <<"u8", "f64", "i32">>[(H % 3) + 1], ctx |-> H % 8]
      [] as = "chi" -> [op |-> "chi", a |-> x, b |-> y, ty |-> <<"str", "int">>[(H % 2) + 1], ctx |-> H % 8, ctx2 |-> H % 5]
      [] as = "f" -> [op |-> "f", g |-> x, xs |-> <<y>>, ty |-> <<"u8", "f64", "i32">>[(H % 3) + 1], gty |-> <<"str", "int">>[(H % 2) + 1], ctx |-> H % 8]))
=============================================================================
