-------------------------- MODULE RegressionTrace --------------------------
(* Regression expressions over a frame: P06, P07 (rolling, recursive), P09. *)
EXTENDS TraceCore, Regression, Num
VARIABLES ev, verdict
Eps(e) == IF e.f32 THEN Pow2(17) ELSE Pow2(44)
N(e) == Len(e.X)
(* the numeric matrix of the kept rows *)
RowVals(e, i) == Eager([j \in 1..Len(e.X[i]) |-> Value(e.X[i][j], e.policy)])
Mat(e, keep) == WithBias(Eager([k \in 1..Len(keep) |-> RowVals(e, keep[k])]), e.bias)
Targ(ys, keep) == Eager([k \in 1..Len(keep) |-> RP(ys[keep[k]])])
Wt(e, keep) == IF Has(e, "w") THEN Eager([k \in 1..Len(keep) |-> RP(e.w[keep[k]])]) ELSE Ones(Len(keep))
CloseVec(os, xs, tol) == Len(os) = Len(xs) /\ \A i \in 1..Len(xs) : RIsNum(os[i]) /\ RLe(RAbs(RSub(RP(os[i]), xs[i])), tol)
ObsVec(os) == Eager([i \in 1..Len(os) |-> RP(os[i])])
AllNum(os) == \A i \in 1..Len(os) : RIsNum(os[i])

(* predictions and residuals are those of the coefficients, row by row, with NaN where the row was dropped *)
PredOk(e, keep, X, y, beta, tol, pred, resid) ==
  LET f == Predict(X, beta)
      at(i) == CHOOSE k \in 1..Len(keep) : keep[k] = i
      rowtol(k) == RAdd(RMul(tol, RAdd(One, RSum(AbsVec(X[k])))), RMul(Eps(e), RAdd(RAbs(y[k]), RAbs(f[k]))))
  IN /\ Len(pred) = N(e) /\ Len(resid) = N(e)
     /\ \A i \in 1..N(e) :
          IF i \notin {keep[k] : k \in 1..Len(keep)} THEN pred[i] = "nan" /\ resid[i] = "nan"
          ELSE LET k == at(i) IN
               /\ RIsNum(pred[i]) /\ RLe(RAbs(RSub(RP(pred[i]), f[k])), rowtol(k))
               /\ RIsNum(resid[i]) /\ RLe(RAbs(RSub(RP(resid[i]), RSub(y[k], f[k]))), rowtol(k))

MustRaise(e) == e.policy = "raise" /\ AnyMissing(e.X, e.y)
(* the specification says nothing about ignored nulls, weights on frames with dropped rows (the call says so), or too few rows *)
OutOfScope(e, keep) == \/ e.policy = "ignore" /\ AnyMissing(e.X, e.y)
                       \/ Has(e, "w") /\ Len(keep) # N(e)
                       \/ Len(keep) < Len(e.X[1])
                       \/ keep = <<>>

AcceptLr(e) ==
  LET keep == KeptRows(e.X, e.y, e.policy) IN
  IF MustRaise(e) THEN Raised(e)
  ELSE IF OutOfScope(e, keep) THEN LeftOpen(e)
  ELSE
    LET X == Mat(e, keep) y == Targ(e.y, keep) w == Wt(e, keep) IN
    IF RSgn(RP(e.l1)) > 0
    THEN \* (nearly) collinear columns: the descent stops after so many sweeps, wherever it is
         IF SlowDescent(Problem(X, y, w, RMul(RP(e.l2), RI(Len(X))), e.bias)) THEN LeftOpen(e)
         ELSE
         LET slack == RMul(RAdd(RMul(RP(e.tol), RI(4)), Eps(e)), RAdd(One, RAdd(Norm(Gram(X, w)), MaxOf(GramVec(AbsMat(X), w, AbsVec(y))))))
         IN /\ ~Raised(e)
            /\ IF e.pred THEN LET b == ObsVec(e.res.coeffs) IN
                              /\ PredOk(e, keep, X, y, b, Eps(e), e.res.pred, e.res.resid)
               ELSE /\ AllNum(e.res.coeffs) /\ Len(e.res.coeffs) = Len(X[1])
                    /\ Optimal(X, y, ObsVec(e.res.coeffs), RP(e.l1), RP(e.l2), e.bias, slack)
    ELSE LET P == Problem(X, y, w, RP(e.l2), e.bias) IN
         IF ~P.ok \/ RLe(RDiv(Pow2(12), Eps(e)), Condition(P)) THEN LeftOpen(e)       \* not determined, or not well enough
         ELSE LET tol == RMul(Eps(e), Sensitivity(P, X, y, w)) IN
              /\ ~Raised(e)
              /\ IF e.pred THEN PredOk(e, keep, X, y, P.beta, tol, e.res.pred, e.res.resid)
                 ELSE CloseVec(e.res.coeffs, P.beta, tol)

(* several targets at once: each column is its own problem *)
AcceptMulti(e) ==
  LET any == \E i \in 1..N(e) : ~FullRow(e.X[i])
      ally == \E t \in 1..Len(e.ys) : \E i \in 1..N(e) : ~Present(e.ys[t][i])
  IN IF (any \/ ally) /\ (e.policy \in {"raise", "skip", "ignore"} \/ ally) THEN Raised(e)     \* said not to be supported
     ELSE LET keep == [i \in 1..N(e) |-> i] X == Mat(e, keep) IN
          \A t \in 1..Len(e.ys) :
            LET y == Targ(e.ys[t], keep) P == Problem(X, y, Ones(N(e)), RP(e.l2), e.bias) IN
            IF ~P.ok \/ RLe(RDiv(Pow2(12), Eps(e)), Condition(P)) THEN LeftOpen(e)
            ELSE LET tol == RMul(Eps(e), Sensitivity(P, X, y, Ones(N(e)))) IN
                 ~Raised(e) /\ Len(e.res.t) = Len(e.ys) /\
                 IF e.pred THEN PredOk(e, keep, X, y, P.beta, tol, e.res.t[t].pred, e.res.t[t].resid)
                 ELSE CloseVec(e.res.t[t].coeffs, P.beta, tol)

(* singular values and the cut-off *)
AcceptRcond(e) ==
  LET keep == KeptRows(e.X, e.y, e.policy) IN
  IF MustRaise(e) THEN Raised(e)
  ELSE IF OutOfScope(e, keep) THEN LeftOpen(e)
  ELSE LET X == Mat(e, keep) y == Targ(e.y, keep) w == Ones(Len(keep))
           A == Normal(X, w, RP(e.l2), e.bias)
           b == GramVec(X, w, y)
           p == Len(A)
           diagonal == \A i, j \in 1..p : i # j => RSgn(A[i][j]) = 0
           big == MaxOf(Diag(A))
           rc2 == RMul(RP(e.rcond), RP(e.rcond))
           sv == e.res.sv
           P == Problem(X, y, w, RP(e.l2), e.bias)
       IN /\ ~Raised(e) /\ AllNum(sv) /\ Len(sv) = p
          /\ \A q \in 1..p : RSgn(RP(sv[q])) >= 0
          (* the squares of the singular values have the right power sums *)
          /\ LET tr == PowerTraces(A, A, 1, p) IN
             \A k \in 1..p : LET s == RSum([q \in 1..p |-> RPow(RP(sv[q]), 2 * k)]) IN
                              RLe(RAbs(RSub(s, tr[k])), RMul(RMul(Eps(e), RI(8)), tr[k]))
          /\ IF diagonal /\ P.ok
             THEN (* singular values are the square roots of the diagonal: the cut-off is decidable (unless it is on the edge) *)
                  \A i \in 1..p :
                    LET edge == RLe(RAbs(RSub(A[i][i], RMul(rc2, big))), RMul(Eps(e), big))
                        kept == RLe(RMul(rc2, big), A[i][i])
                        near(x) == RIsNum(e.res.coeffs[i]) /\ RLe(RAbs(RSub(RP(e.res.coeffs[i]), x)), RMul(RMul(Eps(e), RI(64)), RAdd(One, RAbs(x))))
                    IN edge \/ near(IF kept THEN RDiv(b[i], A[i][i]) ELSE Zero)
             ELSE IF P.ok /\ RLe(Condition(P), RDiv(Pow2(12), Eps(e))) /\ RLe(RMul(rc2, Condition(P)), RQ(1, 4))
             THEN (* nothing is cut off *) CloseVec(e.res.coeffs, P.beta, RMul(Eps(e), Sensitivity(P, X, y, w)))
             ELSE TRUE

(* one predictor, in closed form: the regression of the rows without nulls, drawn through every x *)
SimplePredOk(e, keep, P, tol) ==
  LET pred == e.res.pred resid == e.res.resid line(i) == RDot(WithBias(<<<<RP(e.X[i][1])>>>>, e.bias)[1], P.beta)
      tolat(i) == RAdd(RMul(tol, RAdd(One, RAbs(RP(e.X[i][1])))), RMul(Eps(e), RAbs(line(i)))) IN
  /\ Len(pred) = N(e) /\ Len(resid) = N(e)
  /\ \A i \in 1..N(e) :
       IF ~Present(e.X[i][1]) THEN pred[i] = "null" /\ resid[i] = "null"
       ELSE /\ RIsNum(pred[i]) /\ RLe(RAbs(RSub(RP(pred[i]), line(i))), tolat(i))
            /\ IF ~Present(e.y[i]) THEN resid[i] = "null"
               ELSE RIsNum(resid[i]) /\ RLe(RAbs(RSub(RP(resid[i]), RSub(RP(e.y[i]), line(i)))), RAdd(tolat(i), RMul(Eps(e), RAbs(RP(e.y[i])))))
AcceptSimple(e) ==
  LET rows == KeptRows(e.X, e.y, "skip")
      keep == IF Has(e, "w") THEN SelectSeq(rows, LAMBDA i : Present(e.w[i])) ELSE rows IN
  IF keep = <<>> THEN LeftOpen(e)
  ELSE LET X == Mat(e, keep) y == Targ(e.y, keep) w == Wt(e, keep) P == Problem(X, y, w, Zero, e.bias) IN
       IF ~P.ok THEN LeftOpen(e)
       ELSE LET tol == RMul(Eps(e), Sensitivity(P, X, y, w)) IN
            ~Raised(e) /\ IF e.pred THEN SimplePredOk(e, keep, P, tol) ELSE CloseVec(e.res.coeffs, P.beta, tol)

(***************************************************************************)
(* P07: the regression at row i is the one on the rows of its window.      *)
(***************************************************************************)
Complete(e, i) == Present(e.y[i]) /\ (IsFill(e.policy) \/ FullRow(e.X[i]))
XKnown(e, i) == IsFill(e.policy) \/ FullRow(e.X[i])
Slack(e) == IF e.f32 THEN RPow(RI(2), 11) ELSE RPow(RI(2), 30)       \* 1 / relative accuracy asked of updated inverses
(* the problem of the rows idx; [ok |-> FALSE] when they do not determine it (well enough) *)
None == [ok |-> FALSE, sens |-> Zero]
WindowProblem(e, idx) ==
  IF idx = <<>> THEN None
  ELSE LET X == Mat(e, idx) y == Targ(e.y, idx) P == Problem(X, y, Ones(Len(idx)), RP(e.l2), e.bias) IN
       IF ~P.ok \/ RLe(RMul(Slack(e), RI(1024)), Condition(P)) THEN None
       ELSE [ok |-> TRUE, beta |-> P.beta, sens |-> Sensitivity(P, X, y, Ones(Len(idx)))]
(* rounding errors of the windows before stay in an updated inverse: the largest sensitivity so far bounds them *)
WindowOk(e, i, Ps) ==
  LET c == e.res.coeffs[i] pr == e.res.pred[i] P == Ps[i] IN
  ~P.ok \/
  LET tol == RMul(RDiv(One, Slack(e)), MaxOf([k \in 1..i |-> Ps[k].sens]))
      row == WithBias(<<RowVals(e, i)>>, e.bias)[1]
      f == RDot(row, P.beta)
  IN /\ CloseVec(c, P.beta, tol)
     /\ IF XKnown(e, i) THEN RIsNum(pr) /\ RLe(RAbs(RSub(RP(pr), f)), RAdd(RMul(tol, RAdd(One, RSum(AbsVec(row)))), RMul(RAbs(f), Eps(e))))
        ELSE pr \in {"nan", "null"}
NullAt(e, i) == e.res.coeffs[i] = <<"null">> /\ e.res.pred[i] = "null"
AcceptRolling(e) ==
  IF MustRaise(e) THEN Raised(e)
  ELSE IF e.policy = "ignore" /\ AnyMissing(e.X, e.y) THEN LeftOpen(e)
  ELSE IF N(e) < Len(e.X[1]) THEN LeftOpen(e)
  ELSE ~Raised(e) /\ Len(e.res.coeffs) = N(e) /\ Len(e.res.pred) = N(e) /\
    LET m == IF AnyMissing(e.X, e.y) /\ (~IsFill(e.policy) \/ \E i \in 1..N(e) : ~Present(e.y[i])) THEN e.minv ELSE 0
        Win == Eager([i \in 1..N(e) |-> IF i < e.n THEN <<>> ELSE SelectSeq([k \in 1..e.n |-> i - e.n + k], LAMBDA k : Complete(e, k))])
        Ps == Eager([i \in 1..N(e) |-> WindowProblem(e, Win[i])])
    IN \A i \in 1..N(e) : IF i < e.n \/ Len(Win[i]) < m THEN NullAt(e, i) ELSE WindowOk(e, i, Ps)
AcceptRecursive(e) ==
  LET keep == KeptRows(e.X, e.y, e.policy) IN
  IF MustRaise(e) THEN Raised(e)
  ELSE IF e.policy = "ignore" /\ AnyMissing(e.X, e.y) THEN LeftOpen(e)
  ELSE IF Len(keep) < Len(e.X[1]) THEN LeftOpen(e)
  ELSE ~Raised(e) /\ Len(e.res.coeffs) = N(e) /\ Len(e.res.pred) = N(e) /\
    (* the first fit must be determined, or the updates start from nothing *)
    LET first == SubSeq(keep, 1, e.n)
        P0 == IF Len(keep) < e.n THEN [ok |-> FALSE] ELSE Problem(Mat(e, first), Targ(e.y, first), Ones(e.n), RP(e.l2), e.bias)
        good == P0.ok /\ RLe(Condition(P0), RPow(RI(2), IF e.f32 THEN 5 ELSE 16))
        Upto == Eager([i \in 1..N(e) |-> SelectSeq(keep, LAMBDA k : k <= i)])
        Ps == Eager([i \in 1..N(e) |-> IF Len(Upto[i]) < e.n THEN None ELSE WindowProblem(e, Upto[i])])
    IN \A i \in 1..N(e) :
         IF i \notin {keep[k] : k \in 1..Len(keep)} \/ Len(Upto[i]) < e.n THEN NullAt(e, i)
         ELSE ~good \/ WindowOk(e, i, Ps)

(***************************************************************************)
(* P09: a report describes one regression.                                 *)
(***************************************************************************)
AcceptReport(e) ==
  LET keep == KeptRows(e.X, e.y, e.policy) IN
  IF MustRaise(e) THEN Raised(e)
  ELSE IF OutOfScope(e, keep) \/ Len(keep) <= Len(e.X[1]) + 2 THEN LeftOpen(e)
  ELSE
    LET X == Mat(e, keep) y == Targ(e.y, keep) w == Wt(e, keep)
        n == Len(keep) p == Len(X[1])
        P == Problem(X, y, w, Zero, e.bias)
    IN IF ~P.ok \/ RLe(RPow(RI(2), IF e.f32 THEN 10 ELSE 24), Condition(P)) THEN LeftOpen(e)
       ELSE
         LET r == e.res
             kind == IF Has(e, "w") THEN "se" ELSE e.kind
             (* a row that alone determines a coefficient has no residual to scale up *)
             lone == kind \in {"hc2", "hc3"} /\ LET h == Leverages(P, X) IN \E i \in 1..n : RLe(RSub(One, Pow2(10)), h[i])
             v == IF lone THEN <<>> ELSE Variances(P, X, y, w, kind)
             res == Residuals(X, y, P.beta)
             rss == SumSq(res) tss == TotalSq(y)
             tol == RMul(Eps(e), Sensitivity(P, X, y, w))
             loose == IF e.f32 THEN Pow2(6) ELSE Pow2(20)
             names == e.names \o (IF e.bias THEN <<"__bias__">> ELSE <<>>)
             dof == RI(n - p)
             (* relative error of residuals makes tiny variances meaningless *)
             sound == RLe(RMul(loose, RMul(loose, RAdd(tss, SumSq(y)))), RMul(rss, RI(1024)))
             Rel(o, x) == RIsNum(o) /\ RLe(RAbs(RSub(RP(o), x)), RMul(loose, RAdd(RAbs(x), loose)))
         IN /\ ~Raised(e) /\ r.features = names
            /\ CloseVec(r.beta, P.beta, tol)
            /\ Len(r.se) = p /\ Len(r.t) = p /\ Len(r.p) = p /\ Len(r.lo) = p /\ Len(r.hi) = p
            /\ RSgn(tss) = 0 \/ LET ratio == RDiv(rss, tss) IN
                 \A i \in 1..p : Rel(r.r2[i], RSub(One, ratio)) /\ Rel(r.adj[i], RSub(One, RMul(ratio, RDiv(RI(n - 1), IF e.bias THEN dof ELSE RSub(dof, One)))))
            /\ lone \/ ~sound \/ \A i \in 1..p :
                 LET se == Sqrt(v[i]) IN
                 /\ RIsNum(r.se[i]) /\ RLe(RAbs(RSub(RP(r.se[i]), se)), RAdd(RMul(loose, se), RMul(RI(4), tol)))
                 (* the t statistic, its p-value and the limits belong to the reported coefficient and error *)
                 /\ RSgn(RP(r.se[i])) = 0 \/
                    LET o == RP(r.se[i]) t == RDiv(RP(r.beta[i]), o) IN
                    /\ RIsNum(r.t[i]) /\ RLe(RAbs(RSub(RP(r.t[i]), t)), RMul(Eps(e), RAbs(t)))
                    /\ RIsNum(r.p[i]) /\ RLe(RAbs(RSub(RP(r.p[i]), RMul(RI(2), StudentSf(RAbs(RP(r.t[i])), dof)))), loose)
                    /\ RIsNum(r.lo[i]) /\ RIsNum(r.hi[i])
                    /\ LET b == RP(r.beta[i]) IN
                       IF RLt(o, RMul(IF e.f32 THEN Pow2(12) ELSE Pow2(24), RAbs(b)))      \* too near the coefficient to be told apart
                       THEN RLe(RAbs(RSub(b, RP(r.lo[i]))), RMul(loose, RAbs(b))) /\ RLe(RAbs(RSub(b, RP(r.hi[i]))), RMul(loose, RAbs(b)))
                       ELSE LET tl == RDiv(RSub(b, RP(r.lo[i])), o) th == RDiv(RSub(RP(r.hi[i]), b), o) IN
                       RLe(RAbs(RSub(StudentSf(tl, dof), RQ(1, 40))), loose)
                       /\ RLe(RAbs(RSub(StudentSf(th, dof), RQ(1, 40))), loose)

Accept(e) == CASE e.op = "lr" -> AcceptLr(e)
               [] e.op = "multi" -> AcceptMulti(e)
               [] e.op = "rcond" -> AcceptRcond(e)
               [] e.op = "simple" -> AcceptSimple(e)
               [] e.op = "rolling" -> AcceptRolling(e)
               [] e.op = "recursive" -> AcceptRecursive(e)
               [] e.op = "report" -> AcceptReport(e)

Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
