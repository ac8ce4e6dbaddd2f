------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* What a lazy query announces before it runs: a schema, the sequence of   *)
(* its columns with their types; and how the steps of a plan change it.    *)
(* A type is [t, of, names]: a primitive has no parts, a list and an array *)
(* have the type of their values, a struct the types of its named fields.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Prim(p) == [t |-> p, of |-> <<>>, names |-> <<>>]
F64 == Prim("Float64")
F32 == Prim("Float32")
U32 == Prim("UInt32")
U64 == Prim("UInt64")
I32 == Prim("Int32")
Str == Prim("String")
Bool == Prim("Boolean")
(* of the numbers the function is given: In their type, Fl their type when floating, Float64 otherwise *)
Fl == Prim("float of the input")
In == Prim("input")
L(T) == [t |-> "List", of |-> <<T>>, names |-> <<>>]
A(T, n) == [t |-> "Array" \o ToString(n), of |-> <<T>>, names |-> <<>>]
S(ns, Ts) == [t |-> "Struct", of |-> Ts, names |-> ns]
IsList(T) == T.t = "List"
IsStruct(T) == T.t = "Struct"
RECURSIVE Sub(_, _)
(* a type rule at numbers of type ty *)
Sub(T, ty) == CASE T = Fl -> (IF ty = F32 THEN F32 ELSE F64)
                [] T = In -> ty
                [] OTHER -> [T EXCEPT !.of = [i \in DOMAIN T.of |-> Sub(T.of[i], ty)]]

(* schemas *)
Col(n, T) == <<n, T>>
Has(sch, n) == \E i \in DOMAIN sch : sch[i][1] = n
At(sch, n) == CHOOSE i \in DOMAIN sch : sch[i][1] = n
TypeAt(sch, n) == sch[At(sch, n)][2]
Distinct(sch) == \A i, j \in DOMAIN sch : i # j => sch[i][1] # sch[j][1]
Put(sch, n, T) == IF Has(sch, n) THEN [sch EXCEPT ![At(sch, n)] = Col(n, T)] ELSE Append(sch, Col(n, T))
FieldsOf(T) == [i \in DOMAIN T.of |-> Col(T.names[i], T.of[i])]

(* placing an expression of one value (one) or of many, of type T *)
Place(place, kind, T, key) ==
  CASE place = "select" -> <<Col("r__", T)>>
    [] place = "column" -> <<Col("k", key), Col("r__", T)>>
    [] place = "group" -> <<Col("k", key), Col("r__", IF kind = "one" THEN T ELSE L(T))>>
    [] place = "over" -> <<Col("k", key), Col("r__", T)>>
    [] place = "struct" -> <<Col("k", key), Col("r__", S(<<"e__", "n__">>, <<T, U32>>))>>
    [] place = "implode" -> <<Col("r__", L(T))>>
    [] place = "when" -> <<Col("k", key), Col("r__", T)>>
Places == <<"select", "column", "group", "over", "struct", "implode", "when">>
PlaceOK(place, kind) ==
  CASE place = "select" -> TRUE [] place = "group" -> TRUE [] place = "implode" -> TRUE
    [] place \in {"column", "over", "struct", "when"} -> kind # "many"

(* steps on the column r__ *)
Steps == <<"filter", "head0", "unnest", "explode", "len", "isnull", "field", "get0", "alias", "first", "twice", "cache">>
StepOK(step, sch) ==
  /\ Has(sch, "r__")
  /\ LET T == TypeAt(sch, "r__") IN
     CASE step = "unnest" -> IsStruct(T) /\ \A i \in DOMAIN T.names : ~Has(sch, T.names[i])
       [] step = "field" -> IsStruct(T)
       [] step \in {"explode", "len", "get0"} -> IsList(T)
       [] step = "alias" -> ~Has(sch, "q__")
       [] OTHER -> TRUE
Step(step, sch) ==
  LET T == TypeAt(sch, "r__") p == At(sch, "r__") IN
  CASE step \in {"filter", "head0", "twice", "cache"} -> sch
    [] step = "unnest" -> SubSeq(sch, 1, p - 1) \o FieldsOf(T) \o SubSeq(sch, p + 1, Len(sch))
    [] step \in {"explode", "get0"} -> Put(sch, "r__", T.of[1])
    [] step = "len" -> Put(sch, "r__", U32)
    [] step = "isnull" -> Put(sch, "r__", Bool)
    [] step = "field" -> Put(sch, "r__", T.of[1])
    [] step = "alias" -> Put(sch, "q__", T)
    [] step = "first" -> <<Col("r__", T)>>
RECURSIVE Run(_, _)
Run(steps, sch) == IF steps = <<>> THEN sch ELSE Run(Tail(steps), Step(Head(steps), sch))
RECURSIVE RunOK(_, _)
RunOK(steps, sch) == steps = <<>> \/ (StepOK(Head(steps), sch) /\ RunOK(Tail(steps), Step(Head(steps), sch)))
=============================================================================
