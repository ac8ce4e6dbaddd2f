----------------------------- MODULE AssocTrace -----------------------------
(* Recorded association and location statistics against their definitions. *)
EXTENDS TraceCore, Stats
VARIABLES ev, verdict
Eps == Pow2(36)
(* the tolerance for answers computed in the type of the column *)
Tol(e) == IF e.ty = "f32" THEN Pow2(13) ELSE Eps
Num(s) == Eager([i \in 1..Len(s) |-> RP(s[i])])
Pick(s, K) == Eager([i \in 1..Len(K) |-> s[K[i]]])
Ok(o, w) == w.k = "open" \/ VOk(o, w, Eps, Eps)
OkT(e, o, w) == w.k = "open" \/ VOk(o, w, Tol(e), Tol(e))
Const(s) == \A i \in 1..Len(s) : REq(s[i], s[1])
(* values in their order: -inf < numbers < inf *)
Key(s) == IF s = "inf" THEN 1 ELSE IF s = "-inf" THEN -1 ELSE 0
Cmp(a, b) == IF Key(a) # Key(b) THEN (IF Key(a) < Key(b) THEN -1 ELSE 1) ELSE IF Key(a) # 0 THEN 0 ELSE Sign(RP(a), RP(b))
Kendall(x, y) ==
  LET K == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : x[i] \notin {"null", "nan"} /\ y[i] \notin {"null", "nan"}) IN
  IF Len(K) < 2 THEN NaN ELSE TauB(Len(K), LAMBDA i, j : Cmp(x[K[i]], x[K[j]]), LAMBDA i, j : Cmp(y[K[i]], y[K[j]]))
(* ties of x are broken at random: any order of them *)
Distinct(x) == \A i, j \in 1..Len(x) : i # j => ~REq(x[i], x[j])
XiOk(o, X, Y) == IF Distinct(X) THEN Ok(o, XiAlong(Y, SortSeq([i \in 1..Len(X) |-> i], LAMBDA i, j : RLt(X[i], X[j]))))
                 ELSE \E p \in Orders2(X) : Ok(o, XiAlong(Y, p))
XiP(o, n) == LET x == RP(o) IN RMul(RI(2), NormalSf(Sqrt(RDiv(RMul(RI(n), Square(x)), RQ(2, 5)))))
XiEv(e, f) ==
  LET X == Num(e.x) Y == Num(e.y) n == Len(X) IN
  /\ XiOk(f.v, X, Y) /\ XiOk(f.stat, X, Y)
  /\ Distinct(X) => f.corr = f.v
  /\ IF n < 30 THEN f.p = "nan" ELSE IF f.stat = "nan" THEN TRUE ELSE Near(f.p, XiP(f.stat, n), Pow2(33), Z0)
WStat(e, f) ==
  LET X == Num(e.x) Y == Num(e.y) W == Num(e.w) s == RSum(W) norm == REq(s, U1) IN
  /\ Ok(f.mean, VR(WMean(X, W))) /\ (norm => Ok(f.meann, VR(WMean(X, W))))
  /\ Ok(f.var, VR(WCov(X, X, W))) /\ (REq(s, U1) \/ Ok(f.varf, VR(RDiv(RMul(WCov(X, X, W), s), RSub(s, U1)))))
  /\ Ok(f.cov, VR(WCov(X, Y, W))) /\ Ok(f.voc, VR(WCov(X, Y, W)))
  /\ (Const(X) \/ Const(Y) \/ Ok(f.corr, WCorr(X, Y, W)))
  /\ Ok(f.cos, Cosine(X, Y)) /\ Ok(f.wcos, WCos(X, Y, W))
Means(e, f) ==
  LET K == SelectSeq([i \in 1..Len(e.x) |-> i], LAMBDA i : e.x[i] # "null") X == Num(Pick(e.x, K)) n == Len(X) u == Ones(n) IN
  /\ n = 0 \/ (OkT(e, f.h, VR(HMean(X, u))) /\ OkT(e, f.g, VR(GMean(X, u))))
  /\ (n < Len(e.x) \/ n = 0)
     \/ LET W == Num(e.w) norm == REq(RSum(W), U1) h == VR(HMean(X, W)) g == VR(GMean(X, W)) IN
        Ok(f.wh, h) /\ Ok(f.wg, g) /\ (norm => Ok(f.whn, h) /\ Ok(f.wgn, g))
BicorEv(e, f) == LET X == Num(e.x) Y == Num(e.y) w == Bicor(X, Y, RP(e.c)) IN
                 IF w = Open THEN LeftOpen(e) ELSE OkT(e, f.v, w) /\ OkT(e, f.w, w)
CorrEv(e, f) == LET X == Num(e.x) Y == Num(e.y) IN
                /\ Const(X) \/ Const(Y) \/ (Ok(f.pearson, Pearson(X, Y)) /\ Ok(f.spearman, Spearman(X, Y)))
                /\ Ok(f.kendall, Kendall(e.x, e.y)) /\ LET w == Bicor(X, Y, RI(9)) IN OkT(e, f.bicor, w)
Accept(e) ==
  /\ ~Raised(e)
  /\ CASE e.op = "tau" -> Ok(e.res.v, Kendall(e.x, e.y)) /\ Ok(e.res.w, Kendall(e.x, e.y))
       [] e.op = "xi" -> XiEv(e, e.res) [] e.op = "w" -> WStat(e, e.res) [] e.op = "means" -> Means(e, e.res)
       [] e.op = "bicor" -> BicorEv(e, e.res) [] e.op = "corr" -> CorrEv(e, e.res)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
