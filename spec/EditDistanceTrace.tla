-------------------------- MODULE EditDistanceTrace --------------------------
(***************************************************************************)
(* One event is one expression evaluated over a column of strings `a` and  *)
(* either a column `b` of the same length or a single string (`sc`).       *)
(***************************************************************************)
EXTENDS TraceCore, EditDistance
VARIABLES ev, verdict

NULL == <<-1>>
Tiny == Pow2(40)

Rows(e) == 1..Len(e.a)
A(e, i) == e.a[i]
B(e, i) == IF e.sc THEN e.b[1] ELSE e.b[i]

IntCell(o, x) == o = ToString(x)
RatCell(o, x) == Near(o, x, Tiny, RI(0))
BoolCell(o, x) == o = (IF x THEN "1" ELSE "0")

Cell(e, s, t, o) ==
  IF s = NULL \/ t = NULL THEN o = "null"
  ELSE CASE e.op = "leven"       -> IntCell(o, Lev(s, t))
         [] e.op = "leven_sim"   -> RatCell(o, Norm(Lev(s, t), MaxLen(s, t)))
         [] e.op = "osa"         -> IntCell(o, Osa(s, t))
         [] e.op = "osa_sim"     -> RatCell(o, Norm(Osa(s, t), MaxLen(s, t)))
         [] e.op = "dleven"      -> IntCell(o, DamLev(s, t))
         [] e.op = "dleven_sim"  -> RatCell(o, Norm(DamLev(s, t), MaxLen(s, t)))
         [] e.op = "lcs"         -> IntCell(o, LcsDist(s, t))
         [] e.op = "lcs_sim"     -> RatCell(o, Norm(LcsDist(s, t), MaxLen(s, t)))
         [] e.op = "fuzz"        -> RatCell(o, Norm(Indel(s, t), Len(s) + Len(t)))
         [] e.op = "hamming"     -> IF Len(s) = Len(t) THEN IntCell(o, HammingPad(s, t)) ELSE o = "null"
         [] e.op = "hamming_pad" -> IntCell(o, HammingPad(s, t))
         [] e.op = "leven_filter"   -> BoolCell(o, Lev(s, t) <= e.bound)
         [] e.op = "hamming_filter" -> BoolCell(o, Len(s) = Len(t) /\ HammingPad(s, t) <= e.bound)
         [] e.op = "jaro"        -> RatCell(o, Jaro(s, t))
         [] e.op = "jw"          -> RatCell(o, JaroWinkler(s, t, RP(e.weight)))
                                    \/ (REq(Jaro(s, t), RQ(7, 10)) /\ RatCell(o, Boosted(s, t, RP(e.weight))))     \* at the threshold, floats fall either side

Type(op) == IF op \in {"leven", "osa", "dleven", "lcs", "hamming", "hamming_pad"} THEN "UInt32"
            ELSE IF op \in {"leven_filter", "hamming_filter"} THEN "Boolean" ELSE "Float64"

Accept(e) ==
  /\ ~Raised(e)
  /\ e.res.dtype = Type(e.op)
  /\ Len(e.res.v) = Len(e.a)
  /\ \A i \in Rows(e) : Cell(e, A(e, i), B(e, i), e.res.v[i])

Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
