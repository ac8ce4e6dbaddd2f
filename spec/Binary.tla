------------------------------- MODULE Binary -------------------------------
(***************************************************************************)
(* Binary classification metrics of a bag of rows, by counting.  A row is  *)
(* [a |-> 0 or 1 (actual), s |-> score, c |-> how many such rows].         *)
(***************************************************************************)
EXTENDS Vals, Num, FiniteSets, FiniteSetsExt

Rows(R) == 1..Len(R)
Count(R, P(_)) == RSum([i \in Rows(R) |-> IF P(R[i]) THEN R[i].c ELSE Z0])
Pos(R) == LET p(r) == r.a = 1 IN Count(R, p)
Neg(R) == LET p(r) == r.a = 0 IN Count(R, p)
(* predicted positive from the threshold t up, and strictly above it *)
AtLeast(R, a, t) == LET p(r) == r.a = a /\ RLe(t, r.s) IN Count(R, p)
Above(R, a, t) == LET p(r) == r.a = a /\ RLt(t, r.s) IN Count(R, p)

(* ROC AUC: the probability that a positive row outranks a negative one, ties counting half *)
AucPairs(R) ==
  RSum([i \in Rows(R) |->
    IF R[i].a = 0 THEN Z0 ELSE
    RSum([j \in Rows(R) |->
      IF R[j].a = 1 \/ RLt(R[i].s, R[j].s) THEN Z0
      ELSE RMul(RMul(R[i].c, R[j].c), IF REq(R[i].s, R[j].s) THEN RQ(1, 2) ELSE RI(1))])])
Auc(R) == VDiv(VR(AucPairs(R)), VR(RMul(Pos(R), Neg(R))))

(* the distinct scores, as indices of their first rows, in ascending order of score *)
Firsts(R) == {i \in Rows(R) : \A j \in 1..(i - 1) : ~REq(R[j].s, R[i].s)}
Place(R, F, i) == 1 + Cardinality({j \in F : RLt(R[j].s, R[i].s)})
Thresholds(R) == LET F == Firsts(R) IN Eager([k \in 1..Cardinality(F) |-> R[CHOOSE i \in F : Place(R, F, i) = k].s])

Tpr(R, t) == VDiv(VR(AtLeast(R, 1, t)), VR(Pos(R)))
Fpr(R, t) == VDiv(VR(AtLeast(R, 0, t)), VR(Neg(R)))
PrecAt(R, t) == VDiv(VR(AtLeast(R, 1, t)), VR(RAdd(AtLeast(R, 1, t), AtLeast(R, 0, t))))
(* average precision: precision at each score times the recall gained there *)
AvgPrec(R) ==
  LET T == Thresholds(R) n == Len(T) IN
  IF RSgn(Pos(R)) = 0 THEN NaN
  ELSE VR(RSum([k \in 1..n |->
         LET gain == RSub(AtLeast(R, 1, T[k]), IF k = n THEN Z0 ELSE AtLeast(R, 1, T[k + 1])) IN
         RDiv(RMul(gain, PrecAt(R, T[k]).v), Pos(R))]))
FScore(p, r) == VDiv(VMul(VI(2), VMul(p, r)), VAdd(p, r))

VSqrt(x) == IF IsNum(x) THEN VR(Sqrt(x.v)) ELSE NaN
(* the statistics of a confusion matrix *)
Confusion(tp, fp, tn, fn) ==
  LET TP == VR(tp) FP == VR(fp) TN == VR(tn) FN == VR(fn) one == VI(1)
      p == VAdd(TP, FN) n == VAdd(FP, TN)
      tpr == VDiv(TP, p) fpr == VDiv(FP, n) prec == VDiv(TP, VAdd(TP, FP)) for == VDiv(FN, VAdd(FN, TN))
      fnr == VSub(one, tpr) tnr == VSub(one, fpr) npv == VSub(one, for) fdr == VSub(one, prec)
      plr == VDiv(tpr, fpr) nlr == VDiv(fnr, tnr) IN
  [tpr |-> tpr, fpr |-> fpr, fnr |-> fnr, tnr |-> tnr, precision |-> prec, false_omission_rate |-> for, npv |-> npv, fdr |-> fdr,
   plr |-> plr, nlr |-> nlr, dor |-> VDiv(plr, nlr), prevalence |-> VDiv(p, VAdd(p, n)),
   prevalence_threshold |-> VDiv(VSub(VSqrt(VMul(tpr, fpr)), fpr), VSub(tpr, fpr)),
   informedness |-> VSub(VAdd(tpr, tnr), one), markedness |-> VSub(prec, for),
   acc |-> VDiv(VAdd(TP, TN), VAdd(p, n)), balanced_accuracy |-> VDiv(VAdd(tpr, tnr), VI(2)), f1 |-> FScore(prec, tpr),
   folkes_mallows_index |-> VSqrt(VMul(prec, tpr)), threat_score |-> VDiv(TP, VAdd(TP, VAdd(FN, FP))),
   mcc |-> VSub(VSqrt(VMul(VMul(tpr, tnr), VMul(prec, npv))), VSqrt(VMul(VMul(fnr, fpr), VMul(for, fdr))))]
Phi(tp, fp, tn, fn) ==
  LET d == RMul(RMul(RAdd(tp, fn), RAdd(tp, fp)), RMul(RAdd(tn, fp), RAdd(tn, fn))) IN
  IF RSgn(d) = 0 THEN NaN ELSE VR(RDiv(RSub(RMul(tp, tn), RMul(fp, fn)), Sqrt(d)))

(* cross entropy of one row *)
XLogY(x, y) == IF RSgn(x) = 0 THEN VR(Z0) ELSE IF RSgn(y) = 0 THEN (IF RSgn(x) > 0 THEN NegInf ELSE Inf) ELSE VR(RMul(x, Ln(y)))
=============================================================================
