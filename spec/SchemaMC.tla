------------------------------ MODULE SchemaMC ------------------------------
(***************************************************************************)
(* A frame is built by the steps of a plan while its schema is computed    *)
(* without it.  Values carry their type; an expression gives values of the *)
(* type it declares (honest) or of another (not).  Whatever the plan and   *)
(* however many rows, honest declarations make the announced schema that   *)
(* of the frame; a dishonest one shows as soon as the expression is placed.*)
(***************************************************************************)
EXTENDS Schema
CONSTANTS MaxRows, Depth
VARIABLES declared, actual, kind, rows, sch, cols, done
vars == <<declared, actual, kind, rows, sch, cols, done>>
Types == {F64, U32, L(F64), L(Str), S(<<"x", "y">>, <<F64, L(U32)>>), S(<<"x">>, <<S(<<"z">>, <<Str>>)>>), A(F64, 2), L(S(<<"x">>, <<Bool>>))}
(* a column of a frame: its name, its own type, and its values, each tagged by its type *)
Column(n, T, vals) == [name |-> n, ty |-> T, vals |-> vals]
Vals(T, n) == [i \in 1..n |-> [of |-> T, at |-> i]]
SchemaOf(fr) == [i \in DOMAIN fr |-> Col(fr[i].name, fr[i].ty)]
Where(fr, n) == CHOOSE i \in DOMAIN fr : fr[i].name = n
(* the engine works on what is there *)
Run1(step, fr) ==
  LET p == Where(fr, "r__") r == fr[p] up(c) == [fr EXCEPT ![p] = c] IN
  CASE step = "filter" -> [i \in DOMAIN fr |-> [fr[i] EXCEPT !.vals = SubSeq(fr[i].vals, 1, Len(fr[i].vals) \div 2)]]
    [] step = "head0" -> [i \in DOMAIN fr |-> [fr[i] EXCEPT !.vals = <<>>]]
    [] step = "twice" -> [i \in DOMAIN fr |-> [fr[i] EXCEPT !.vals = fr[i].vals \o fr[i].vals]]
    [] step = "cache" -> fr
    [] step = "unnest" -> SubSeq(fr, 1, p - 1) \o [k \in DOMAIN r.ty.of |-> Column(r.ty.names[k], r.ty.of[k], Vals(r.ty.of[k], Len(r.vals)))] \o SubSeq(fr, p + 1, Len(fr))
    [] step \in {"explode", "get0"} -> up(Column("r__", r.ty.of[1], Vals(r.ty.of[1], Len(r.vals))))
    [] step = "len" -> up(Column("r__", U32, Vals(U32, Len(r.vals))))
    [] step = "isnull" -> up(Column("r__", Bool, Vals(Bool, Len(r.vals))))
    [] step = "field" -> up(Column("r__", r.ty.of[1], Vals(r.ty.of[1], Len(r.vals))))
    [] step = "alias" -> Append(fr, Column("q__", r.ty, r.vals))
    [] step = "first" -> <<Column("r__", r.ty, Vals(r.ty, 1))>>
(* does what the engine is asked make sense on what is there *)
RunsOn(step, fr) == StepOK(step, SchemaOf(fr))
Frame0(place, k, T, n) ==
  LET s == Place(place, k, T, Str) m == IF place \in {"implode"} THEN 1 ELSE n IN
  [i \in DOMAIN s |-> Column(s[i][1], s[i][2], Vals(s[i][2], m))]
Init == /\ declared \in Types /\ actual \in {declared, F64, L(F64)} /\ kind \in {"one", "rows", "many"} /\ rows \in 0..MaxRows
        /\ \E p \in DOMAIN Places : /\ PlaceOK(Places[p], kind)
                                    /\ sch = Place(Places[p], kind, declared, Str)
                                    /\ cols = Frame0(Places[p], kind, actual, rows)
        /\ done = 0
Next == \E s \in DOMAIN Steps :
          /\ done < Depth /\ StepOK(Steps[s], sch) /\ RunsOn(Steps[s], cols)
          /\ sch' = Step(Steps[s], sch) /\ cols' = Run1(Steps[s], cols) /\ done' = done + 1
          /\ UNCHANGED <<declared, actual, kind, rows>>
Honest == declared = actual
Announced == Honest => sch = SchemaOf(cols)
WellTyped == \A i \in DOMAIN cols : \A j \in DOMAIN cols[i].vals : cols[i].vals[j].of = cols[i].ty
Unique == Distinct(sch)
Shows == (~Honest /\ done = 0) => sch # SchemaOf(cols)
(* an honest plan never asks the engine for what it cannot do *)
Runs == Honest => \A s \in DOMAIN Steps : StepOK(Steps[s], sch) => RunsOn(Steps[s], cols)
=============================================================================
