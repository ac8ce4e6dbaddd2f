--------------------------- MODULE PipelineTrace ---------------------------
(***************************************************************************)
(* Trace validation of pipelines: the frames a fitted pipeline returned    *)
(* against the possible results of the specification's.                    *)
(***************************************************************************)
EXTENDS Pipeline, TraceCore
VARIABLES ev, verdict
E == Trace[ev]
IsBefore(a, b) == \E i, j \in 1..Len(E.words) : i < j /\ E.words[i] = a /\ E.words[j] = b
CellOf(k, o) == IF o = "null" THEN Null
              ELSE IF k \in {"str", "cat"} THEN SV(o)
              ELSE IF k = "bool" THEN BV(o = "true")
              ELSE IF o = "nan" THEN NaN ELSE IF o = "inf" THEN Inf ELSE IF o = "-inf" THEN NegInf ELSE VR(RP(o))
(* names as the blueprint's case option makes them *)
Named(e, n) == LET I == {i \in 1..Len(e.names) : e.names[i][1] = n} IN IF I = {} THEN n ELSE e.names[CHOOSE i \in I : TRUE][2]
Frame(e, f) == Eager([j \in 1..Len(f) |-> [n |-> Named(e, f[j].n), k |-> f[j].k, x |-> TRUE, v |-> [i \in 1..Len(f[j].v) |-> CellOf(f[j].k, f[j].v[i])]]])
KindOk(o, w) == IF w = "any" THEN TRUE ELSE IF w = "float" THEN o \in {"f32", "float"} ELSE IF w = "f64" THEN o = "float" ELSE o = w
Tol(e) == TwoPow(IF e.f32 THEN -12 ELSE -28)
Size(c) == LET q == SelectSeq(c.v, LAMBDA w : IsNum(w)) IN IF q = <<>> THEN U1 ELSE RAdd(U1, MaxOf(Eager([i \in 1..Len(q) |-> RAbs(q[i].v)])))
CellOk(o, w, tol) == CASE w.k = "open" -> TRUE [] w.k = "str" -> o = w.s [] w.k = "bool" -> o = (IF w.b THEN "true" ELSE "false")
                       [] w.k = "num" -> RIsNum(o) /\ RLe(RAbs(RSub(RP(o), w.v)), tol) [] OTHER -> o = w.k
ColOk(e, o, c) == /\ KindOk(o.k, c.k)
                  /\ Len(o.v) = Len(c.v)
                  /\ LET tol == IF c.x /\ c.k = "int" THEN Z0 ELSE RMul(Tol(e), Size(c)) IN \A i \in 1..Len(o.v) : CellOk(o.v[i], c.v[i], tol)
(* columns added to a frame after the fit, and not named by any step, may stay or go with the steps about kinds of columns *)
Main(q) == SelectSeq(q, LAMBDA c : c.n # "extra")
FrameOk(e, out, F) == LET o == Main(out) G == Main(F) IN
  IsUndecided(F) \/ (/\ Len(o) = Len(G) /\ NameSet(o) = NameSet(G) /\ \A i \in 1..Len(o) : ColOk(e, o[i], Get(G, o[i].n)))
In(e) == {Named(e, e.train[i].n) : i \in 1..Len(e.train)}
Unexpected(e, t) == e.opts.ensure_in /\ {Named(e, t[i].n) : i \in 1..Len(t)} # In(e)
Lacks(e, r, t) == ~e.direct /\ e.opts.ensure_out /\ \E i \in 1..Len(r.names_out) : r.names_out[i] = e.opts.target /\ e.opts.target \notin {Named(e, t[j].n) : j \in 1..Len(t)}
TestOk(e, r, t, out, F) ==
  IF "exc" \in DOMAIN out THEN Unexpected(e, t) \/ Lacks(e, r, t) \/ (IsUndecided(F) /\ FALSE)
  ELSE /\ ~Unexpected(e, t)
       /\ FrameOk(e, out.cols, F)
       /\ (~e.direct /\ e.opts.ensure_out) => Names(out.cols) = r.names_out
Judge(e, tr, ts, odd) ==
  LET r == e.res IN
  /\ ~Raised(e)
  /\ r.kept                                             \* the frames given are as they were
  /\ e.direct \/ (
       /\ (CASE r.json = "same" -> TRUE [] r.json = "unreadable" -> odd
            [] OTHER -> \A i \in 1..Len(ts) : TestOk(e, r, IF i = 1 THEN e.train ELSE e.tests[i - 1], r.reload[i], ts[i])) /\ r.again /\ r.later                  \* saved and reloaded; fitted again; after the blueprint got another step
       /\ r.names_in = [i \in 1..Len(e.train) |-> Named(e, e.train[i].n)]
       /\ Cardinality({r.names_out[i] : i \in 1..Len(r.names_out)}) = Len(r.names_out)
       /\ {r.names_out[i] : i \in 1..Len(r.names_out)} = NameSet(tr)
       /\ IF e.opts.target = "" THEN r.sep = "raise"
          ELSE e.opts.target \in NameSet(tr) => (r.sep = "same" /\ r.sepx = SelectSeq(r.names_out, LAMBDA n : n # e.opts.target) /\ r.sepy = <<e.opts.target>>))
  /\ \A i \in 1..Len(ts) : TestOk(e, r, IF i = 1 THEN e.train ELSE e.tests[i - 1], r.outs[i], ts[i])
(* NaN and infinities, which JSON cannot hold, may be learned from such a frame *)
Odd(F) == \E j \in 1..Len(F) : \E i \in 1..Len(F[j].v) : F[j].v[i].k \notin {"num", "str", "bool", "null"}
RECURSIVE RunOk(_, _, _, _, _)
RunOk(e, i, tr, ts, odd) ==
  IF IsUndecided(tr) THEN LeftOpen(e)
  ELSE IF i > Len(e.steps) THEN Judge(e, tr, ts, odd)
  ELSE LET s == e.steps[i] IN
       IF MustRefuse(tr, s, e.opts) THEN Raised(e)
       ELSE \/ (Raised(e) /\ MayRefuse(tr, s, e.opts))
            \/ \E its \in Items(tr, s, e.opts) : RunOk(e, i + 1, ApplyAll(tr, its), Eager([j \in 1..Len(ts) |-> ApplyAll(ts[j], its)]), odd \/ (s.op \in Learning /\ (Odd(tr) \/ MayRefuse(tr, s, e.opts))))
Accept(e) == RunOk(e, 1, Frame(e, e.train), Eager(<<Frame(e, e.train)>> \o [j \in 1..Len(e.tests) |-> IF Unexpected(e, e.tests[j]) THEN Undecided ELSE Frame(e, e.tests[j])]), FALSE)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
