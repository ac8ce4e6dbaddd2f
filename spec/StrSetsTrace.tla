---------------------------- MODULE StrSetsTrace ----------------------------
EXTENDS TraceCore, StrSets
VARIABLES ev, verdict
Tiny == Pow2(40)
Close(o, x) == IF ~IsRat(x) THEN o = "nan" ELSE Near(o, x, Tiny, RI(0))

SimCell(e, s, t, o) ==
  IF s = NoString \/ t = NoString THEN o = "null"
  ELSE LET A == Grams(s, e.ngram) B == Grams(t, e.ngram) IN
       CASE e.op = "jaccard" -> Close(o, Jaccard(A, B))
         [] e.op = "overlap" -> Close(o, Overlap(A, B))
         [] e.op = "dice" -> Close(o, Dice(A, B))
         [] e.op = "tversky" -> Close(o, Tversky(A, B, RP(e.alpha), RP(e.beta)))
AcceptSim(e) ==
  /\ e.res.dtype = "Float64" /\ Len(e.res.v) = Len(e.a)
  /\ \A i \in 1..Len(e.a) : SimCell(e, e.a[i], IF e.sc THEN e.b[1] ELSE e.b[i], e.res.v[i])

AcceptNearest(e) == e.res.s = <<NearestAmong(e.a, e.word, e.metric, e.thr)>>

(* is the similarity computed without rounding, so that a tie with the threshold is decided exactly? *)
PowerOf2(n) == n \in {0, 1, 2, 4, 8, 16}
Exact(e, s) == e.metric # "jw" /\ \A k \in 1..Len(e.vocab) : PowerOf2(MaxLen(s, e.vocab[k]))
Either(v, thr, exact, o) ==           \* o is the verdict on v >= thr
  IF RLt(RAbs(RSub(v, thr)), Pow2(30)) /\ ~exact THEN o \in {"0", "1"} ELSE o = (IF RLe(thr, v) THEN "1" ELSE "0")
VocabCell(e, s, o) ==
  IF s = NoString THEN o \in {"null", "0"}
  ELSE LET S == [k \in 1..Len(e.vocab) |-> Sim(e.metric, s, e.vocab[k])]
           thr == RP(e.thr)
           lo == FoldLeft(RMin, S[1], S)
           hi == FoldLeft(RMax, S[1], S)
       IN CASE e.strategy = "avg" -> Either(RDiv(RSum(S), RI(Len(S))), thr, Exact(e, s) /\ PowerOf2(Len(S)), o)
            [] e.strategy = "all" -> Either(lo, thr, Exact(e, s), o)
            [] e.strategy = "any" -> Either(hi, thr, Exact(e, s), o)
AcceptVocab(e) ==
  /\ e.res.dtype = "Boolean" /\ Len(e.res.v) = Len(e.a)
  /\ \A i \in 1..Len(e.a) : VocabCell(e, e.a[i], e.res.v[i])

Accept(e) ==
  /\ ~Raised(e)
  /\ CASE e.op = "nearest" -> AcceptNearest(e)
       [] e.op = "vocab" -> AcceptVocab(e)
       [] OTHER -> AcceptSim(e)

Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
