--------------------------- MODULE SamplingTrace ---------------------------
EXTENDS Sampling, TraceCore
VARIABLES ev, verdict
(* the rows returned are rows of the frame, unchanged; the frame is as it was; the same seed gives the same again *)
Fine(r) == r.rows /\ r.kept /\ r.again
Sets(q) == [i \in 1..Len(q) |-> SetOf(q[i])]
ColOf(e, c) == IF c = "g" THEN e.g ELSE IF c = "h2" THEN e.h2 ELSE e.h
Ty(e, c) == IF c = "g" THEN e.tys[1] ELSE e.tys[2]
NeutralRefused(e) == FALSE
SubsetsOf(n, m) == {S \in SUBSET (1..n) : Cardinality(S) = m}
Cover(e) ==      \* over many seeds everything possible comes out
  LET O == {SetOf(e.res.outs[i]) : i \in 1..Len(e.res.outs)} n == e.n IN
  CASE e.of = "sample" -> /\ \A S \in O : SampleOk(n, e.v, S)
                          /\ \A S \in O : SubsetsOf(n, Cardinality(S)) \subseteq O
    [] e.of = "split" -> \A S \in O : SubsetsOf(n, Cardinality(S)) \subseteq O
    [] e.of = "neutral" -> /\ \A S \in O : NeutralOk(e.g, <<>>, -1, S)
                           /\ \A i \in 1..n : (\E S \in O : i \in S) /\ (Volume(e.g, <<>>, -1, i) < Cardinality({j \in 1..n : e.g[j] = e.g[i]}) => \E S \in O : i \notin S)
    [] e.of = "down" -> /\ \A S \in O : DownOk(n, e.conds, S)
                        /\ \A i \in 1..n : (\E S \in O : i \in S) /\ (e.conds[1].c[i] = "true" => \E S \in O : i \notin S)
    [] e.of = "cols" -> /\ \A i \in 1..Len(e.res.outs) : ColsOk(e.all, e.k, e.keep, e.res.outs[i])
                        /\ \A I \in SUBSET {c \in SetOf(e.all) : c \notin SetOf(e.keep)} : Cardinality(I) = e.k => \E S \in O : S = I \cup SetOf(e.keep)
Accept(e) ==
  LET r == e.res IN
  CASE e.op = "sample" -> IF BadValue(e.v) THEN Raised(e) ELSE ~Raised(e) /\ Fine(r) /\ IsSeq1(r.ids) /\ SampleOk(e.n, e.v, SetOf(r.ids))
    [] e.op = "split" -> IF BadRatios(e.q) THEN Raised(e)
                         ELSE ~Raised(e) /\ Fine(r) /\ (\A i \in 1..Len(r.parts) : IsSeq1(r.parts[i])) /\ SplitOk(e.n, e.q, Sets(r.parts))
    [] e.op = "neutral" -> ~Raised(e) /\ Fine(r) /\ IsSeq1(r.ids) /\ NeutralOk(e.g, [c \in 1..Len(e.ctrl) |-> ColOf(e, e.ctrl[c])], e.target, SetOf(r.ids))
    [] e.op = "down" -> IF \E k \in 1..Len(e.conds) : BadValue(e.conds[k].v) THEN Raised(e)
                        ELSE ~Raised(e) /\ Fine(r) /\ IsSeq1(r.ids) /\ DownOk(e.n, e.conds, SetOf(r.ids))
    [] e.op = "cols" -> IF Cardinality({c \in SetOf(e.all) : c \notin SetOf(e.keep)}) < e.k THEN Raised(e) ELSE ~Raised(e) /\ r.kept /\ r.again /\ ColsOk(e.all, e.k, e.keep, r.out)
    [] e.op = "cover" -> ~Raised(e) /\ Cover(e)
    [] e.op = "part" ->
         LET cols == [c \in 1..Len(e.by) |-> ColOf(e, e.by[c])] n == e.n IN
         IF e.by = <<>> THEN ~Raised(e) /\ r.rows /\ r.kept /\ r.names = <<"df">> /\ r.parts = << [i \in 1..n |-> i] >> /\ r.gets /\ r.heads /\ r.applied /\ r.failed
         ELSE IF \E c \in 1..Len(e.by) : Ty(e, e.by[c]) \notin {"str", "cat", "bool"} THEN Raised(e)
         ELSE IF Ambiguous(cols, n, e.sep) THEN Raised(e)
         ELSE /\ ~Raised(e) /\ r.rows /\ r.kept
              /\ SetOf(r.names) = SetOf(PartNames(cols, n, e.sep)) /\ IsSeq1(r.names)
              /\ \A k \in 1..Len(r.names) : \E i \in 1..n : NameOf(cols, i, e.sep) = r.names[k] /\ r.parts[k] = PartRows(cols, n, i)
              /\ r.gets /\ r.heads /\ r.applied /\ r.failed
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
