------------------------------ MODULE CompatMC ------------------------------
(***************************************************************************)
(* A caller moves arguments from container to container, renames series,   *)
(* wraps plain values in NumPy scalars, and passes arguments by position   *)
(* or keyword.  The layer, as it works (lifted literals over a frame as    *)
(* high as the columns), gives what the call means, and always the same.   *)
(***************************************************************************)
EXTENDS Compat
CONSTANTS Names, MaxLen
VARIABLES args, first
vars == <<args, first>>
Slots == <<"0", "1", "target">>
Cols == UNION {[1..n -> 0..1] : n \in 1..MaxLen}
ColArg(v, i) == [t |-> "column", held |-> "np", name |-> "", slot |-> Slots[i], v |-> v]
ValArg(i) == [t |-> "value", held |-> "plain", name |-> "", slot |-> Slots[i], v |-> <<i>>]
Init == /\ \E n \in 1..MaxLen, mask \in SUBSET {1, 2, 3} :
             /\ mask # {}
             /\ \E f \in [1..3 -> [1..n -> 0..1]] : args = [i \in 1..3 |-> IF i \in mask THEN ColArg(f[i], i) ELSE ValArg(i)]
        /\ first = args
Rehold == \E i \in Columns(args), h \in {"np", "pandas", "series", "expr"} :
            args' = [args EXCEPT ![i].held = h]
Rename == \E i \in Columns(args), n \in Names : args[i].held \in Named /\ args' = [args EXCEPT ![i].name = n]
Wrap == \E i \in DOMAIN args \ Columns(args), h \in {"plain", "scalar"} : args' = [args EXCEPT ![i].held = h]
Next == (Rehold \/ Rename \/ Wrap) /\ UNCHANGED first
(* the layer: every column a literal under a name; every plain value itself; the frame has that height *)
Lift(a, i) == IF IsColumn(a[i]) THEN [lit |-> a[i].v, name |-> NameOf(a, i)] ELSE [lit |-> a[i].v, name |-> "value"]
Layer(a) == LET L == [i \in DOMAIN a |-> Lift(a, i)] IN
  [cols |-> [i \in Columns(a) |-> L[i].lit], vals |-> [i \in DOMAIN a \ Columns(a) |-> L[i].lit], height |-> Height(a)]
Same == Layer(args) = Meaning(first)
Distinct == Apart(args)
=============================================================================
