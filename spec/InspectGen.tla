----------------------------- MODULE InspectGen -----------------------------
(* Every small frame of four columns, with questions about it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Share
VARIABLES a, b, c
Num == {"0", "1", "1/2", "-1", "null"}
Txt == {<<97>>, <<>>, <<-1>>}
Lst == {<<"1/4", "3/4">>, <<"1", "0">>, <<"1/2", "1/4">>, <<"3/2", "-1/2">>, <<"1">>, <<"no">>}
Init == \E n \in 1..N : a \in [1..n -> Num] /\ b \in [1..n -> Txt] /\ c \in [1..n -> Lst]
Next == UNCHANGED <<a, b, c>>
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN 1
           ELSE ((CASE q[1] = "0" -> 1 [] q[1] = "1" -> 2 [] q[1] = "1/2" -> 3 [] q[1] = "-1" -> 4 [] OTHER -> 5) + 7 * Code(Tail(q))) % 1009
Len2(q) == IF q = <<>> THEN 0 ELSE Len(q[1]) + 3 * (IF q[1] = <<-1>> THEN 2 ELSE 1) + 5 * (IF Len(q) > 1 THEN Len(q[2]) + 2 ELSE 0)
RECURSIVE CodeL(_)
CodeL(q) == IF q = <<>> THEN 1 ELSE (Code(q[1]) + 11 * CodeL(Tail(q))) % 1013
H == (Code(a) + 31 * Len2(b) + 17 * CodeL(c)) % 100003
Ops == <<"session", "special", "profile", "strs", "rows", "colrules", "nullcorr", "dep", "plotdep">>
(* the third column: whether the first is null; the fourth, lists *)
Cols(lists) == << [name |-> "a", ty |-> "f64", v |-> a], [name |-> "b", ty |-> "str", v |-> b],
           [name |-> "d", ty |-> "i64", v |-> [i \in 1..Len(a) |-> IF a[i] \in {"1/2", "null"} THEN "7" ELSE a[i]]] >>
           \o (IF lists THEN << [name |-> "c", ty |-> "lf", v |-> c] >> ELSE <<>>)
Q(q, inc, k) == [q |-> q, t |-> "1/2", m |-> 2, k |-> k, inc |-> inc]
Asks == << << Q("prob", FALSE, 1), Q("const", TRUE, 1), Q("prob", FALSE, 1) >>, << Q("const", FALSE, 1), Q("binary", TRUE, 2), Q("k", FALSE, 2), Q("const", FALSE, 1) >>,
           << Q("high", FALSE, 1), Q("disc", FALSE, 1), Q("high", FALSE, 1), Q("k", TRUE, 2) >> >>
R(n, cmp, val) == [name |-> n, col |-> (IF H % 2 = 0 THEN "a" ELSE "d"), cmp |-> cmp, val |-> val, agg |-> (<<"min", "max", "nulls", "n">>)[(H % 4) + 1]]
Rules == << << R("r1", "ge", "0"), R("r2", "lt", "1") >>, << R("r2", "known", "0"), R("r1", "ne", "1"), R("r3", "le", "1/2") >>, << R("r1", "gt", "0") >> >>
Base(l) == [cols |-> Cols(l), layout |-> H % 4, lazy |-> (H % 5 < 2)]
Case(op) ==
  LET w == (H % 3) + 1 IN
  CASE op = "session" -> [op |-> op, asks |-> Asks[w]] @@ Base(TRUE)
    [] op = "profile" -> [op |-> op, mult |-> (<<"3/2", "1/2", "0">>)[w], bins |-> 2 + w, hist |-> (H % 2 = 0)] @@ Base(FALSE)
    [] op = "rows" -> [op |-> op, rules |-> Rules[w], all |-> (H % 2 = 0), keep |-> (<< <<>>, <<"a">>, <<"d", "b">> >>)[w], id |-> ""] @@ Base(FALSE)
    [] op = "colrules" -> [op |-> op, rules |-> Rules[w]] @@ Base(FALSE)
    [] op = "nullcorr" -> [op |-> op, subset |-> <<"a", "b", "c">>, filter |-> (IF H % 2 = 0 THEN <<>> ELSE << [R("f", "ge", "0") EXCEPT !.col = "d"] >>)] @@ Base(TRUE)
    [] op = "dep" -> [op |-> op, subset |-> <<"b", "d">>] @@ Base(FALSE)
    [] op = "plotdep" -> [op |-> op, thr |-> "1/100", subset |-> <<"d", "b">>] @@ Base(FALSE)
    [] OTHER -> [op |-> op] @@ Base(FALSE)
Emit == (Len(a) = 1 \/ H % Share = 0) => PrintT("CASE " \o ToJson(Case(Ops[((H \div 7) % Len(Ops)) + 1])))
=============================================================================
