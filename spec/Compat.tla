------------------------------- MODULE Compat -------------------------------
(***************************************************************************)
(* The compatibility layer calls an expression function with whatever the  *)
(* caller holds.  An argument is a column held in some container, or a     *)
(* plain value (which may be held in a NumPy scalar).  A call means: put   *)
(* the columns in a frame, under a name of their own each, and evaluate    *)
(* the expression the function makes of them.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* arrays have no name, series and the literals made of them may, and several may share one *)
Anonymous == {"np", "np_strided", "np_reversed", "np_readonly", "pandas", "pandas_index", "arraylike"}
Named == {"series", "series_same", "series_chunked", "series_unnamed", "expr"}
Containers == Anonymous \cup Named
IsColumn(a) == a.t = "column"
(* the name a column has in the frame: its own, if it has one that no other argument has; that of its place in the call otherwise *)
OwnName(a) == a.held \in Named /\ a.name # ""
Shared(args, i) == \E j \in DOMAIN args : j # i /\ IsColumn(args[j]) /\ OwnName(args[j]) /\ args[j].name = args[i].name
NameOf(args, i) == IF OwnName(args[i]) /\ ~Shared(args, i) THEN args[i].name ELSE args[i].slot
Columns(args) == {i \in DOMAIN args : IsColumn(args[i])}
Frame(args) == [i \in Columns(args) |-> [name |-> NameOf(args, i), v |-> args[i].v]]
Height(args) == LET hs == {Len(args[i].v) : i \in Columns(args)} IN CHOOSE h \in hs : \A k \in hs : k <= h
Values(args) == [i \in DOMAIN args \ Columns(args) |-> args[i].v]
(* what the function is given, whatever holds it *)
Meaning(args) == [cols |-> [i \in Columns(args) |-> args[i].v], vals |-> Values(args), height |-> Height(args)]
(* names of the frame's columns are different *)
Apart(args) == \A i, j \in Columns(args) : i # j => NameOf(args, i) # NameOf(args, j)
=============================================================================
