---------------------------- MODULE BinaryTrace ----------------------------
(* Recorded binary metrics against their counting definitions. *)
EXTENDS TraceCore, Binary
VARIABLES ev, verdict
Eps == Pow2(42)
Ok(o, w) == VOk(o, w, Eps, Eps)
IsNul(x) == x = "null"
Bag(e) == Eager([i \in 1..Len(e.a) |-> [a |-> IF RSgn(RP(e.a[i])) = 0 THEN 0 ELSE 1, s |-> RP(e.s[i]), c |-> RP(e.c[i])]])

ConfOk(o, tp, fp, tn, fn) ==
  LET C == Confusion(tp, fp, tn, fn) big == RLe(RPow(RI(2), 20), RMul(RAdd(tp, fn), RAdd(fp, tn))) IN
  /\ Ok(o.tp, VR(tp)) /\ Ok(o.fp, VR(fp)) /\ Ok(o.tn, VR(tn)) /\ Ok(o.fn, VR(fn))
  /\ \A f \in DOMAIN C : f \in {"prevalence_threshold"} \/ Ok(o[f], C[f])
  \* (sqrt(tpr fpr) - fpr) / (tpr - fpr) cancels where the rates nearly agree
  /\ big \/ VOk(o.prevalence_threshold, C.prevalence_threshold, Pow2(24), Pow2(24))
Binary(e, f) ==
  LET R == Bag(e) t == RP(e.thr) T == Thresholds(R)
      tp == Above(R, 1, t) fp == Above(R, 0, t) fn == RSub(Pos(R), tp) tn == RSub(Neg(R), fp)
      none == RSgn(Pos(R)) = 0 p == PrecAt(R, t) r == Tpr(R, t) IN
  /\ Ok(f.auc, Auc(R)) /\ Ok(f.gini, VSub(VMul(VI(2), Auc(R)), VI(1)))
  /\ Ok(f.bm.roc_auc, Auc(R)) /\ Ok(f.bm.average_precision, AvgPrec(R))
  /\ Ok(f.bm.recall, r) /\ (none \/ Ok(f.bm.precision, p)) /\ Ok(f.bm.f, FScore(p, r))
  /\ IF none THEN \A k \in 1..Len(f.tpr) : f.tpr[k] = "nan"
     ELSE /\ Len(f.thr) = Len(T) /\ Len(f.tpr) = Len(T) /\ Len(f.fpr) = Len(T)
          /\ \A k \in 1..Len(T) : Ok(f.thr[k], VR(T[k])) /\ Ok(f.tpr[k], Tpr(R, T[k])) /\ Ok(f.fpr[k], Fpr(R, T[k]))
  /\ ConfOk(f.cm, tp, fp, tn, fn)
  /\ Ok(f.cm4[1], VR(tn)) /\ Ok(f.cm4[2], VR(fp)) /\ Ok(f.cm4[3], VR(fn)) /\ Ok(f.cm4[4], VR(tp))
  /\ Ok(f.mcc, Phi(tp, fp, tn, fn))
(* a row with a missing label or score counts nowhere; the ranking metrics refuse it *)
Kept(e) == SelectSeq([i \in 1..Len(e.a) |-> i], LAMBDA i : ~IsNul(e.a[i]) /\ ~IsNul(e.s[i]))
Holes(e, f) ==
  LET K == Kept(e) R == Eager([k \in 1..Len(K) |-> [a |-> IF RSgn(RP(e.a[K[k]])) = 0 THEN 0 ELSE 1, s |-> RP(e.s[K[k]]), c |-> RI(1)]])
      t == RP(e.thr) tp == Above(R, 1, t) fp == Above(R, 0, t) fn == RSub(Pos(R), tp) tn == RSub(Neg(R), fp) IN
  /\ ConfOk(f.cm, tp, fp, tn, fn) /\ Ok(f.mcc, Phi(tp, fp, tn, fn))
  /\ IF Len(R) = Len(e.a) THEN Ok(f.auc, Auc(R))
     ELSE \/ f.auc = "refused"
          \/ f.auc = "nan" /\ ~\E i \in 1..Len(e.a) : ~IsNul(e.a[i]) /\ RSgn(RP(e.a[i])) # 0
(* log loss: any actual in [0, 1] *)
LogLoss(e, f) ==
  LET K == Kept(e) n == Len(K)
      part(i) == LET a == RP(e.a[K[i]]) s == RP(e.s[K[i]]) IN <<XLogY(a, s), XLogY(RSub(RI(1), a), RSub(RI(1), s))>>
      P == Eager([i \in 1..n |-> part(i)])
      infinite == \E i \in 1..n : ~IsNum(P[i][1]) \/ ~IsNum(P[i][2])
      sum == RNeg(RSum([i \in 1..n |-> RAdd(P[i][1].v, P[i][2].v)])) IN
  IF infinite THEN f.mean = "inf" /\ f.sum = "inf"
  ELSE /\ Ok(f.sum, VR(sum)) \/ (n = 0 /\ f.sum \in {"0", "null"})
       /\ IF n = 0 THEN f.mean = "null" ELSE Ok(f.mean, VR(RDiv(sum, RI(n))))
Accept(e) ==
  /\ ~Raised(e)
  /\ CASE e.op = "binary" -> Binary(e, e.res)
       [] e.op = "holes" -> Holes(e, e.res)
       [] e.op = "logloss" -> LogLoss(e, e.res)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
