--------------------------- MODULE ContextsTrace ---------------------------
(***************************************************************************)
(* e.refs[k]: the values of the expression over the rows e.parts[k] alone, *)
(* computed on a frame of just these rows.  A value is [s |-> its shape    *)
(* and text, x |-> its numbers].  e.res: what the context gave.            *)
(***************************************************************************)
EXTENDS Contexts, TraceCore
VARIABLES ev, verdict
Tol == Pow2(27)
Tol32 == Pow2(12)
SameNum(e, a, b) == a = b \/ (RIsNum(a) /\ RIsNum(b) /\ RLe(RAbs(RSub(RP(a), RP(b))), RMul(IF e.f32 THEN Tol32 ELSE Tol, RAdd(RI(1), RAbs(RP(b))))))
Same(e, a, b) == a = b \/ (a.s = b.s /\ Len(a.x) = Len(b.x) /\ \A i \in 1..Len(a.x) : SameNum(e, a.x[i], b.x[i]))
SameSeq(e, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(e, a[i], b[i])
(* entries without an order among them *)
SameBag(e, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : Same(e, a[j], a[i])}) = Cardinality({j \in 1..Len(b) : Same(e, b[j], a[i])})
Agree(e, a, b) == IF e.bag THEN SameBag(e, a, b) ELSE SameSeq(e, a, b)
WithinWhole == {"select", "lazy", "streaming", "twice", "filter_before", "concat", "joined", "inputs", "inputs_sliced"}
OfColumn == {"column", "column_streaming", "filter_after", "head_after", "tail_after", "mixed"}
OfGroups == {"group", "group_streaming", "group_sorted", "group_dynamic"}
GroupType(e) == IF e.kind = "one" THEN e.rdt ELSE "List(" \o e.rdt \o ")"
(* numbers of a narrow type may be answered in it *)
OfType(e, t) == e.typed => e.res.dt = t
Flat(parts, refs) == [i \in 1..Len(refs) |-> refs[i]]
Accept(e) ==
  LET r == e.res IN
  /\ ~Raised(e)
  /\ e.kind = "one" => \A k \in 1..Len(e.refs) : Len(e.refs[k]) = 1
  /\ e.kind \in PerRow => \A k \in 1..Len(e.refs) : Len(e.refs[k]) = Len(e.parts[k])
  /\ CASE e.ctx \in WithinWhole -> Agree(e, r.v, Whole(e.refs[1])) /\ OfType(e, e.rdt) /\ r.name = e.rname
       [] e.ctx \in OfColumn -> SameSeq(e, r.v, Kept(Column(e.kind, e.refs[1], e.n), e.keep)) /\ OfType(e, e.rdt)
       [] e.ctx \in OfGroups -> /\ Len(r.v) = Len(e.refs) /\ \A k \in 1..Len(r.v) : Agree(e, r.v[k], e.refs[k])
                                /\ OfType(e, GroupType(e)) /\ (e.named => r.name = e.rname)
       [] e.ctx = "window" -> SameSeq(e, r.v, Window(e.kind, e.parts, e.refs, e.n)) /\ OfType(e, e.rdt)
       [] e.ctx = "window_join" -> Len(r.v) = e.n /\ \A i \in 1..e.n : Agree(e, r.v[i], Joined(e.parts, e.refs, e.n)[i])
       [] e.ctx = "window_explode" -> Len(r.v) = Len(e.refs) /\ \A k \in 1..Len(r.v) : Agree(e, r.v[k], e.refs[k])
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
