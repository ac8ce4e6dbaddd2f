---------------------------- MODULE RegressionGen ----------------------------
(* every tiny frame: with an intercept and a lasso penalty; with missing values under every policy *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE c
Base == [op |-> "lr", bias |-> TRUE, l1 |-> "0", l2 |-> "0", tol |-> "1/100000", policy |-> "skip", f32 |-> FALSE, pred |-> FALSE, solver |-> "qr", ch |-> 1, ty |-> 0]
Col(x) == [i \in 1..Len(x) |-> <<x[i]>>]
Lasso == {[X |-> Col(x), y |-> y] @@ [l1 |-> "1/8"] @@ Base : x \in [1..3 -> {"0", "1", "2"}], y \in [1..3 -> {"-1", "0", "2"}]}
Holes == {[X |-> Col(x), y |-> y] @@ [policy |-> p, bias |-> b, pred |-> TRUE, ch |-> 2, f32 |-> (y[1] = "3")] @@ Base :
            x \in [1..3 -> {"null", "1", "2"}], y \in [1..3 -> {"null", "0", "3"}], p \in {"raise", "skip", "zero"}, b \in BOOLEAN}
Solvers == {[X |-> Col(x), y |-> <<"1", "2", "4">>] @@ [solver |-> s, l2 |-> l, f32 |-> f] @@ Base :
            x \in [1..3 -> {"0", "1", "3"}], s \in {"qr", "svd", "choleskey"}, l \in {"0", "1"}, f \in BOOLEAN}
Init == c \in Lasso \cup Holes \cup Solvers
Next == UNCHANGED c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
