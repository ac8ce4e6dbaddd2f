------------------------------ MODULE Contexts ------------------------------
(***************************************************************************)
(* What an expression means is a function from the rows it is given to a   *)
(* sequence of values:                                                     *)
(*   elem   one value per row, each depending on its own row only          *)
(*   rows   one value per row, depending on all of them                    *)
(*   one    a single value                                                 *)
(*   many   any number of values                                           *)
(* A context gives the expression certain rows and places the values it    *)
(* gets back; nothing else about the context (how a column is cut into     *)
(* chunks, whether it is a slice, which engine runs the query, in which    *)
(* morsels) may show in the result.                                        *)
(*   whole    the expression over all rows                                 *)
(*   column   the expression as a column of the frame                      *)
(*   inputs   the expression of expressions: every column it was given is   *)
(*            filtered or sliced, so that those are the rows               *)
(*   group    one entry per group: a value, or the list of the values      *)
(*   window   every row gets the value of its group, or its own value there*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"elem", "rows", "one", "many"}
PerRow == {"elem", "rows"}
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
In(s, x) == \E i \in 1..Len(s) : s[i] = x

(* the values of the parts: refs[k] is the sequence of values over the rows parts[k] *)
Whole(ref) == ref
Column(kind, ref, n) == [i \in 1..n |-> IF kind = "one" THEN ref[1] ELSE ref[i]]
(* of a column computed over all rows, the rows kept *)
Kept(col, keep) == [j \in 1..Len(keep) |-> col[keep[j]]]
PartOf(parts, i) == CHOOSE k \in 1..Len(parts) : In(parts[k], i)
Window(kind, parts, refs, n) ==
  [i \in 1..n |-> LET k == PartOf(parts, i) IN IF kind = "one" THEN refs[k][1] ELSE refs[k][Pos(parts[k], i)]]
(* the list of a group's values goes to each of its rows *)
Joined(parts, refs, n) == [i \in 1..n |-> refs[PartOf(parts, i)]]
=============================================================================
