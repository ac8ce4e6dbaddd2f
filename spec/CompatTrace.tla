---------------------------- MODULE CompatTrace ----------------------------
(* e.ref: the expression over the frame of the columns; e.args: how the arguments were held; e.labels: names a report may take from its columns *)
EXTENDS Compat, TraceCore
VARIABLES ev, verdict
Tol == Pow2(27)
Tol32 == Pow2(12)
SameNum(e, p, q) == p = q \/ (RIsNum(p) /\ RIsNum(q) /\ RLe(RAbs(RSub(RP(p), RP(q))), RMul(IF e.f32 THEN Tol32 ELSE Tol, RAdd(RI(1), RAbs(RP(q))))))
SameVal(e, p, q) == p = q \/ (p.s = q.s /\ Len(p.x) = Len(q.x) /\ \A i \in 1..Len(p.x) : SameNum(e, p.x[i], q.x[i]))
Agree(e, p, q) == /\ Len(p) = Len(q)
                  /\ IF e.bag THEN \A i \in 1..Len(p) : Cardinality({j \in 1..Len(p) : SameVal(e, p[j], p[i])}) = Cardinality({j \in 1..Len(q) : SameVal(e, q[j], p[i])})
                     ELSE \A i \in 1..Len(p) : SameVal(e, p[i], q[i])
Accept(e) ==
  CASE e.op = "call" ->
         /\ ~Raised(e) /\ e.kept
         (* the frame the driver made names the columns as specified *)
         /\ \A i \in Columns(e.args) : e.args[i].named = NameOf(e.args, i)
         /\ e.res.type = "Series" /\ e.res.name = e.short
         /\ e.res.dt = e.rdt /\ Agree(e, e.res.v, e.ref)
    [] e.op = "refuse" -> Raised(e) /\ e.res.exc = e.want
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
