------------------------------ MODULE DrawsGen ------------------------------
(* Every short column (0 stands for null), enumerated in each way, and every generator over frames of every short length. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Vals
VARIABLES s, as, k
Kinds == {"comb", "uniq", "prod", "draw", "nulls"}
Init == /\ as \in Kinds /\ s \in UNION {[1..n -> Vals] : n \in 0..N}
        /\ k \in (IF as \in {"comb", "uniq"} THEN 0..N ELSE IF as = "prod" THEN 0..2 ELSE IF as = "draw" THEN 1..7 ELSE {1})
Next == UNCHANGED <<s, as, k>>
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN 1 ELSE ((q[1] + 5 * Code(Tail(q))) % 1009)
H == Code(s) + k
Col == [i \in 1..Len(s) |-> IF s[i] = 0 THEN "null" ELSE ToString(s[i])]
Ty == <<"i64", "str", "f32", "u8", "f64", "i16">>[(H % 6) + 1]
Sel(q) == q[(H % Len(q)) + 1]
Fun == <<"random", "int", "str", "binom", "exp", "normal", "perturb">>[k]
Emit ==
  PrintT("CASE " \o ToJson(
    CASE as \in {"comb", "uniq"} -> [op |-> "comb", x |-> Col, k |-> k, uniq |-> (as = "uniq"), ty |-> Ty, ctx |-> Sel(<<0, 1, 2, 3, 4, 5, 7>>)]
      [] as = "prod" -> [op |-> "prod", x |-> Col, y |-> SubSeq(Col, 1, IF k < Len(s) THEN k ELSE Len(s)), ty |-> Ty, ctx |-> Sel(<<0, 1, 2, 3, 4, 5, 7>>)]
      [] as = "draw" -> [op |-> "draw", f |-> Fun, p |-> (CASE Fun \in {"int", "str"} -> <<"1", "4">> [] Fun = "binom" -> <<"3", "1/4">> [] Fun = "exp" -> <<"2">> [] Fun = "perturb" -> <<"1/2">> [] OTHER -> <<"0", "1">>),
                         how |-> (IF Fun \in {"random", "int", "normal"} /\ H % 3 = 0 THEN "stat" ELSE "lit"), len |-> (IF H % 2 = 0 \/ H % 9 \in {5, 6} THEN "rows" ELSE "num"), x |-> Col, ty |-> IF Fun = "perturb" THEN "f64" ELSE Ty, seed |-> ToString(H), ctx |-> H % 9]
      [] as = "nulls" -> [op |-> "nulls", x |-> Col, pct |-> "1/2", seed |-> ToString(H), ty |-> Ty, ctx |-> H % 9]))
=============================================================================
