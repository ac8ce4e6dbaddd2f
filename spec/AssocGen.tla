------------------------------ MODULE AssocGen ------------------------------
(* Every small list of rows, in every order, read as two columns; tied, infinite and missing values are among the levels. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES rows, as
Vals == <<"0", "1", "5/2", "inf", "null">>
Levels(a) == IF a = "tau" THEN {1, 2, 4, 5} ELSE 1..3
Code(r) == 7 * r[1] + r[2]
Init == /\ as \in {"tau", "xi", "w", "bicor"}
        /\ rows \in UNION {[1..n -> Levels(as) \X Levels(as)] : n \in 2..N}
        /\ as # "xi" => \A i \in 1..(Len(rows) - 1) : Code(rows[i]) <= Code(rows[i + 1])
Next == UNCHANGED <<rows, as>>
Col(j) == [i \in 1..Len(rows) |-> Vals[rows[i][j]]]
H == (Code(rows[1]) + 3 * Code(rows[Len(rows)]) + Len(rows))
Emit ==
  LET x == Col(1) y == Col(2) b == [op |-> as, x |-> x, y |-> y, ty |-> "f64", ctx |-> H % 8] IN
  PrintT("CASE " \o ToJson(
    CASE as \in {"tau", "xi"} -> b
      [] as = "w" -> b @@ [w |-> [i \in 1..Len(rows) |-> IF i < Len(rows) THEN "1/4" ELSE IF H % 2 = 0 THEN "1" ELSE <<"1", "3/4", "1/2", "1/4">>[Len(rows)]]]
      [] as = "bicor" -> b @@ [c |-> IF H % 2 = 0 THEN "9" ELSE "3/2"]))
=============================================================================
