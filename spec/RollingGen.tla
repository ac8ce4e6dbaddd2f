----------------------------- MODULE RollingGen -----------------------------
(* every short history of rows, with and without missing values, through small windows *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE c
Base == [l1 |-> "0", l2 |-> "0", f32 |-> FALSE, pred |-> FALSE, ch |-> 1, ty |-> 0, minv |-> 1, n |-> 2]
Col(x) == [i \in 1..Len(x) |-> <<x[i]>>]
Ys == {<<"1", "2", "4", "0", "-1">>, <<"0", "null", "1", "1", "5">>}
Init == c \in {[op |-> o, X |-> Col(x), y |-> y, bias |-> b, policy |-> p, n |-> n, minv |-> IF o = "rolling" THEN n ELSE 0] @@ Base :
            o \in {"rolling", "recursive"}, x \in [1..5 -> {"0", "2", "null"}], y \in Ys, b \in BOOLEAN, p \in {"skip", "one"}, n \in {2}}
        \cup {[op |-> "rolling", X |-> Col(x), y |-> y, bias |-> FALSE, policy |-> "skip", l2 |-> l, n |-> n, minv |-> 1] @@ Base :
            x \in [1..5 -> {"0", "1", "null"}], y \in Ys, l \in {"0", "1/2"}, n \in {2, 3}}
Next == UNCHANGED c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
