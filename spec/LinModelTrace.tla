--------------------------- MODULE LinModelTrace ---------------------------
(* Recorded histories of calls on a linear model object against LinModel. *)
EXTENDS TraceCore, LinModel
VARIABLES ev, verdict
Eps == Pow2(40)
Nums(v) == Eager([i \in 1..Len(v) |-> RP(v[i])])
CloseVec(os, xs, tol) == Len(os) = Len(xs) /\ \A i \in 1..Len(xs) : RIsNum(os[i]) /\ RLe(RAbs(RSub(RP(os[i]), xs[i])), tol)

(* the state: the model's options, what it knows, feature names, and the precision left in it *)
Fresh == [m |-> "lr", bias |-> FALSE, l1 |-> Zero, l2 |-> Zero, k |-> Nothing, names |-> <<>>, sens |-> Zero, amp |-> One, big |-> Zero, lost |-> FALSE]
IsNan(s) == s \in {"nan", "null"}
KeptOf(s) == KeptRows(s.X, s.y, s.policy)
XOf(s, keep) == Eager([k \in 1..Len(keep) |-> Eager([j \in 1..Len(s.X[1]) |-> Value(s.X[keep[k]][j], s.policy)])])
YOf(s, keep) == Eager([k \in 1..Len(keep) |-> RP(s.y[keep[k]])])
BadPolicy(p) == p \in {"abc", "nan", "inf"}
(* fitting is refused for missing values under raise (any for the online model), an unknown policy, or too few rows or ill-matched shapes *)
FitRefused(st, s) ==
  \/ s.short                     \* y is shorter than X
  \/ BadPolicy(s.policy)
  \/ (st.m = "online" \/ s.policy = "raise") /\ AnyMissing(s.X, s.y)
  \/ Len(KeptOf(s)) < (IF st.m = "en" THEN 1 ELSE Len(s.X[1]))
SensOf(k) == LET inv == Inverse(k.A) IN RAdd(RMul(RMul(Norm(k.A), Norm(inv)), MaxOf(AbsVec(MatVec(inv, k.b)))), RMul(Norm(inv), MaxOf(AbsVec(k.b))))
Fitted(st, s) ==
  LET keep == KeptOf(s) X == XOf(s, keep) y == YOf(s, keep) IN
  IF st.m = "en" THEN [st EXCEPT !.k = [kind |-> "data", X |-> WithBias(X, st.bias), y |-> y], !.lost = FALSE]
  ELSE LET k == Moments(X, y, st.l2, st.bias) IN
       IF ~Known(k) THEN [st EXCEPT !.k = k, !.lost = TRUE]
       ELSE LET c == RMul(Norm(k.A), Norm(Inverse(k.A))) IN
            [st EXCEPT !.k = k, !.lost = RLe(RPow(RI(2), 24), c), !.sens = SensOf(k), !.amp = One, !.big = Norm(Inverse(k.A))]
Width(st) == CASE st.k.kind = "values" -> Len(st.k.beta) [] st.k.kind = "moments" -> Len(st.k.b) [] OTHER -> Len(st.k.X[1])
IllShaped(s) == s.m = "online" /\ LET d == Len(s.coeffs) + (IF RSgn(RP(s.b)) # 0 THEN 1 ELSE 0) IN Len(s.inv) # d \/ \E i \in 1..Len(s.inv) : Len(s.inv[i]) # d
Next1(st, s) ==
  CASE s.do = "new" -> [Fresh EXCEPT !.m = s.m, !.bias = s.bias, !.l1 = RP(s.l1), !.l2 = RP(s.l2), !.names = s.names]
    [] s.do = "load" ->
         LET b0 == RP(s.b) bias == RSgn(b0) # 0 beta == Nums(s.coeffs) \o (IF bias THEN <<b0>> ELSE <<>>) IN
         IF IllShaped(s) THEN st
         ELSE IF s.m = "online" THEN
           LET k == FromInverse(Eager([i \in 1..Len(s.inv) |-> Nums(s.inv[i])]), beta) IN
           [Fresh EXCEPT !.m = s.m, !.bias = bias, !.k = k, !.sens = SensOf(k), !.big = Norm(Inverse(k.A))]
         ELSE [Fresh EXCEPT !.m = s.m, !.bias = bias, !.k = Values(beta), !.names = s.names]
    [] s.do = "fit" -> IF FitRefused(st, s) THEN st ELSE Fitted(st, s)
    [] s.do = "fit_df" -> IF FitRefused(st, s) THEN st ELSE [Fitted(st, s) EXCEPT !.names = s.cols]
    [] s.do = "names" -> [st EXCEPT !.names = s.cols]
    [] s.do = "update" ->
         IF st.k.kind = "none" \/ \E j \in 1..Len(s.x) : IsNan(s.x[j]) THEN st
         ELSE IF IsNan(s.y) THEN st
         ELSE IF st.lost THEN st
         ELSE LET row == WithBias(<<Nums(s.x)>>, st.bias)[1] k == Plus(st.k, row, RP(s.y), RP(s.c)) IN
              IF ~Known(k) THEN [st EXCEPT !.k = k, !.lost = TRUE]
              ELSE LET sn == SensOf(k) c == RMul(Norm(k.A), Norm(Inverse(k.A)))
                       shrink == RAbs(RAdd(One, RMul(RP(s.c), RDot(row, MatVec(Inverse(st.k.A), row)))))   \* what is left of the determinant: a removal divides by it, twice
                       amp == IF RLt(shrink, One) THEN RDiv(One, RMul(shrink, shrink)) ELSE One IN
                   [st EXCEPT !.k = k, !.big = RMax(@, Norm(Inverse(k.A))), !.amp = RMul(amp, @), !.sens = RMul(amp, RMax(st.sens, sn)), !.lost = RLe(RPow(RI(2), 26), RMul(c, amp))]
    [] OTHER -> st

(* what the model shows of itself: obs = [fit, coeffs or <<"raised">>, bias] *)
TolOf(st) == RMul(Eps, RAdd(One, st.sens))
Refuses(st, s) ==
  CASE s.do \in {"fit", "fit_df"} -> FitRefused(st, s)
    [] s.do = "load" -> IllShaped(s)
    [] s.do = "update" -> st.k.kind = "none"
    [] s.do = "predict" -> st.k.kind = "none" \/ Len(s.Q[1]) # Width(st) - (IF st.bias THEN 1 ELSE 0)
    [] s.do = "predict_df" -> st.k.kind = "none" \/ st.names = <<>>
    [] s.do = "inv" -> st.k.kind = "none"
    [] OTHER -> FALSE
Shows(st, o) ==
  /\ o.fit = (st.k.kind # "none")
  /\ IF st.k.kind = "none" THEN o.coeffs = <<"raised">> /\ o.bias = "0"
     ELSE \/ st.lost
          \/ LET all == o.coeffs \o (IF st.bias THEN <<o.bias>> ELSE <<>>) IN
             /\ Len(all) = Width(st)
             /\ ~st.bias => o.bias = "0"
             /\ IF st.k.kind = "data"
                THEN \/ SlowDescent(Problem(st.k.X, st.k.y, Ones(Len(st.k.y)), RMul(st.l2, RI(Len(st.k.X))), st.bias))
                     \/ /\ \A i \in 1..Len(all) : RIsNum(all[i])
                        /\ Optimal(st.k.X, st.k.y, Nums(all), st.l1, st.l2, st.bias,
                           RMul(RQ(4, 100000), RAdd(One, RAdd(Norm(Gram(st.k.X, Ones(Len(st.k.y)))), MaxOf(GramVec(AbsMat(st.k.X), Ones(Len(st.k.y)), AbsVec(st.k.y)))))))
                ELSE CloseVec(all, Beta(st.k), IF st.k.kind = "values" THEN Zero ELSE TolOf(st))
(* predictions are those of the coefficients it shows *)
PredOk(st, s, r) ==
  LET o == r.obs b == Nums(o.coeffs) b0 == RP(o.bias) IN
  /\ Len(r.pred) = Len(s.Q)
  /\ LET at(j) == IF s.do = "predict" THEN j ELSE CHOOSE k \in 1..Len(s.cols) : s.cols[k] = st.names[j]    \* frames are read by name
     IN \A i \in 1..Len(s.Q) :
       IF \E j \in 1..Len(b) : IsNan(s.Q[i][at(j)]) THEN r.pred[i] = (IF s.do = "predict" THEN "nan" ELSE "null")
       ELSE LET q == Eager([j \in 1..Len(b) |-> RP(s.Q[i][at(j)])]) f == RAdd(RDot(q, b), b0) IN
            RIsNum(r.pred[i]) /\ RLe(RAbs(RSub(RP(r.pred[i]), f)), RAdd(Pow2(50), RMul(Eps, RAdd(RAbs(b0), RDot(AbsVec(q), AbsVec(b))))))
StepOk(st, st2, s, r) ==
  /\ r.raised = Refuses(st, s)
  /\ Shows(st2, r.obs)
  /\ (~r.raised /\ s.do \in {"predict", "predict_df"} /\ ~st2.lost) => PredOk(st2, s, r)
  /\ (~r.raised /\ s.do = "inv" /\ ~st2.lost) =>
        LET I == Inverse(st2.k.A) IN
        Len(r.inv) = Len(I) /\ \A i \in 1..Len(I) : CloseVec(r.inv[i], I[i], RMul(RMul(Eps, st2.amp), RMul(st2.big, RAdd(One, RMul(Norm(I), Norm(st2.k.A))))))
RECURSIVE History(_, _, _)
History(e, st, i) == i > Len(e.steps) \/ (LET s == e.steps[i] st2 == Next1(st, s) IN StepOk(st, st2, s, e.res.steps[i]) /\ History(e, st2, i + 1))

Accept(e) == ~Raised(e) /\ History(e, Fresh, 1)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
