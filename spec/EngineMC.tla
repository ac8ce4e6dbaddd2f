------------------------------ MODULE EngineMC ------------------------------
(***************************************************************************)
(* A query engine that only knows what the expression declares about       *)
(* itself (elementwise, returns one value), and uses its freedom: morsels  *)
(* of any size when elementwise, a filter or a slice moved below the       *)
(* expression when elementwise, groups in any order, a scalar broadcast.   *)
(* Whatever it does, an honest declaration gives the result of Contexts.   *)
(* A dishonest one does not: the declarations are observable.              *)
(***************************************************************************)
EXTENDS Contexts, TLC
CONSTANTS MaxRows, Vals, Groups
VARIABLES rows, kind, elem, one, ctx, keep, todo, out, phase
vars == <<rows, kind, elem, one, ctx, keep, todo, out, phase>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET r == Uniq(Tail(s)) IN IF In(r, Head(s)) THEN r ELSE <<Head(s)>> \o r
F(k, s) == CASE k = "elem" -> [i \in 1..Len(s) |-> s[i] + 10]
             [] k = "rows" -> [i \in 1..Len(s) |-> s[i] * 10 + Sum(s)]
             [] k = "one" -> <<Sum(s)>>
             [] k = "many" -> Uniq(s)
V(rs) == [i \in 1..Len(rs) |-> rs[i][2]]
At(rs, ix) == [j \in 1..Len(ix) |-> rs[ix[j]]]
RECURSIVE Indices(_, _, _)
Indices(rs, g, i) == IF i > Len(rs) THEN <<>> ELSE (IF rs[i][1] = g THEN <<i>> ELSE <<>>) \o Indices(rs, g, i + 1)
Gs(rs) == {rs[i][1] : i \in 1..Len(rs)}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetSeq(S \ {m})
All(rs) == [i \in 1..Len(rs) |-> i]

Honest(k, e, o) == (e => k = "elem") /\ (o <=> k = "one")
Init == /\ rows \in UNION {[1..n -> Groups \X Vals] : n \in 1..MaxRows}
        /\ kind \in Kinds /\ elem \in BOOLEAN /\ one \in BOOLEAN /\ Honest(kind, elem, one)
        /\ ctx \in {"select", "column", "filter_after", "group_by", "over"}
        /\ (kind = "many" => ctx \in {"select", "group_by"})
        /\ keep \in SUBSET (1..Len(rows)) /\ (ctx # "filter_after" => keep = {})
        /\ todo = All(rows) /\ out = <<>> /\ phase = "run"

(* streaming: a declared elementwise expression may be run morsel by morsel *)
Morsel == /\ ctx \in {"select", "column"} /\ elem /\ todo # <<>>
          /\ \E m \in 1..Len(todo) :
               /\ out' = out \o F(kind, V(At(rows, SubSeq(todo, 1, m))))
               /\ todo' = SubSeq(todo, m + 1, Len(todo))
          /\ UNCHANGED <<rows, kind, elem, one, ctx, keep, phase>>
Broadcast(s, n) == IF one THEN [i \in 1..n |-> s[1]] ELSE s
Gather == /\ ctx \in {"select", "column"} /\ todo = All(rows) /\ out = <<>>
          /\ out' = IF ctx = "column" THEN Broadcast(F(kind, V(rows)), Len(rows)) ELSE F(kind, V(rows))
          /\ todo' = <<>> /\ UNCHANGED <<rows, kind, elem, one, ctx, keep, phase>>
(* a filter may move below a declared elementwise expression *)
FilterAfter == /\ ctx = "filter_after" /\ todo # <<>>
               /\ LET k == SetSeq(keep) IN
                  \/ out' = At(Broadcast(F(kind, V(rows)), Len(rows)), k)
                  \/ elem /\ out' = F(kind, V(At(rows, k)))
               /\ todo' = <<>> /\ UNCHANGED <<rows, kind, elem, one, ctx, keep, phase>>
(* groups in any order; out is a set of <<group, answer>> *)
GroupStep == /\ ctx = "group_by" /\ todo # <<>>
             /\ \E i \in 1..Len(todo) :
                  LET g == rows[todo[i]][1] v == F(kind, V(At(rows, Indices(rows, g, 1)))) IN
                  /\ out' = Append(out, <<g, IF one THEN <<"value", v[1]>> ELSE <<"list", v>> >>)
                  /\ todo' = SelectSeq(todo, LAMBDA j : rows[j][1] # g)
             /\ UNCHANGED <<rows, kind, elem, one, ctx, keep, phase>>
OverStep == /\ ctx = "over" /\ todo # <<>>
            /\ LET p == [i \in 1..Len(rows) |-> Indices(rows, rows[i][1], 1)] IN
               out' = [i \in 1..Len(rows) |-> LET v == F(kind, V(At(rows, p[i]))) IN IF one THEN v[1] ELSE v[Pos(p[i], i)]]
            /\ todo' = <<>> /\ UNCHANGED <<rows, kind, elem, one, ctx, keep, phase>>
Finish == todo = <<>> /\ phase = "run" /\ phase' = "done" /\ UNCHANGED <<rows, kind, elem, one, ctx, keep, todo, out>>
Next == Morsel \/ Gather \/ FilterAfter \/ GroupStep \/ OverStep \/ Finish
Spec == Init /\ [][Next]_vars

Ref == F(kind, V(rows))
Parts == LET gs == SetSeq(Gs(rows)) IN [k \in 1..Len(gs) |-> Indices(rows, gs[k], 1)]
Refs == [k \in 1..Len(Parts) |-> F(kind, V(At(rows, Parts[k])))]
Right ==
  phase = "done" =>
    CASE ctx = "select" -> out = Whole(Ref)
      [] ctx = "column" -> out = Column(kind, Ref, Len(rows))
      [] ctx = "filter_after" -> out = Kept(Column(kind, Ref, Len(rows)), SetSeq(keep))
      [] ctx = "over" -> out = Window(kind, Parts, Refs, Len(rows))
      [] ctx = "group_by" -> {out[i] : i \in 1..Len(out)} =
            {<<rows[Parts[k][1]][1], IF kind = "one" THEN <<"value", Refs[k][1]>> ELSE <<"list", Refs[k]>> >> : k \in 1..Len(Parts)}

(* a false declaration shows: there are rows for which some run differs *)
Two == <<1, 2, 1>>
ASSUME \A k \in {"rows", "one", "many"} : F(k, SubSeq(Two, 1, 1)) \o F(k, SubSeq(Two, 2, 3)) # F(k, Two)
ASSUME \A k \in {"elem", "rows"} : [i \in 1..3 |-> F(k, Two)[1]] # F(k, Two)
=============================================================================
