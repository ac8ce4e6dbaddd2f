---------------------------- MODULE SchemaTrace ----------------------------
(***************************************************************************)
(* e.declared: the schema the lazy query announces; e.collected,           *)
(* e.streamed: those of the frames the two engines produce (or the error). *)
(* At Float64 numbers in a full frame every expression runs; other types   *)
(* and frames of one row or none may be refused, though not in the schema. *)
(***************************************************************************)
EXTENDS SchemaTable, TraceCore
VARIABLES ev, verdict
TyOf(s) == CASE s = "f64" -> F64 [] s = "f32" -> F32 [] s = "i8" -> Prim("Int8") [] s = "i16" -> Prim("Int16") [] s = "i32" -> I32 [] s = "i64" -> Prim("Int64")
             [] s = "u8" -> Prim("UInt8") [] s = "u16" -> Prim("UInt16") [] s = "u32" -> U32 [] s = "u64" -> U64
Announced(e) == Run(e.steps, Place(e.place, KindOf(e.fn), TypeOf(e.fn, TyOf(e.ty)), Str))
Got(e, r) == IF "exc" \in DOMAIN r THEN ~r.schema /\ ~(e.ty = "f64" /\ e.size = "some") ELSE r.v = Announced(e)
Accept(e) ==
  CASE e.op = "schema" ->
         /\ ~("exc" \in DOMAIN e.declared) /\ e.declared.v = Announced(e) /\ Distinct(e.declared.v)
         /\ Got(e, e.collected) /\ Got(e, e.streamed)
    [] e.op = "name" -> e.declared = e.collected
    [] e.op = "plan" -> (* a fitted pipeline over lazy frames *)
         \A i \in DOMAIN e.collected :
           LET d == e.declared[i] c == e.collected[i] IN
           IF "exc" \in DOMAIN c THEN ~c.schema ELSE ~("exc" \in DOMAIN d) /\ d.v = c.v /\ Distinct(c.v)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
