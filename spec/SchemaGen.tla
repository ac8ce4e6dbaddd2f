----------------------------- MODULE SchemaGen -----------------------------
(* every expression at numbers of every type, placed, and followed by the steps its type allows *)
EXTENDS SchemaTable, SequencesExt, Json
CONSTANTS Depth, Share
VARIABLES fn, place, steps
FnSeq == SetToSeq(Names)
Tys == <<"f64", "f32", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64">>
Init == /\ fn \in DOMAIN FnSeq
        /\ place \in {i \in DOMAIN Places : PlaceOK(Places[i], KindOf(FnSeq[fn]))}
        /\ steps = <<>>
Words(ss) == [i \in DOMAIN ss |-> Steps[ss[i]]]
Sch(ss) == Run(Words(ss), Place(Places[place], KindOf(FnSeq[fn]), TypeOf(FnSeq[fn], F64), Str))
Next == /\ Len(steps) < Depth /\ UNCHANGED <<fn, place>>
        /\ \E s \in DOMAIN Steps : StepOK(Steps[s], Sch(steps)) /\ steps' = Append(steps, s)
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN 1 ELSE (q[1] + (17 * Code(Tail(q)))) % 1009
H == (Code(steps) * 11) + (fn * 7) + (place * 31)
(* expressions bare, at every type; plans, at some *)
Case(ty, size, w) == PrintT("CASE " \o ToJson([op |-> "schema", fn |-> FnSeq[fn], place |-> Places[place], steps |-> w, ty |-> ty, size |-> size, seed |-> H % 89]))
Emit == IF steps = <<>> THEN Places[place] \in {"select", "group", "over"} => \A t \in DOMAIN Tys : (((H + t) % 4 = 0) \/ t < 3) => Case(Tys[t], "some", <<>>)
        ELSE H % Share = 0 => Case(Tys[1 + ((H \div 5) % 10)], <<"some", "none", "one">>[1 + ((H \div 3) % 3)], Words(steps))
=============================================================================
