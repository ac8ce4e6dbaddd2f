------------------------------ MODULE HypTrace ------------------------------
(* Recorded hypothesis tests against their definitions. *)
EXTENDS TraceCore, Stats
VARIABLES ev, verdict
STol == Pow2(36)
PTol == Pow2(33)
Num(s) == Eager([i \in 1..Len(s) |-> RP(s[i])])
Pick(s, K) == Eager([i \in 1..Len(K) |-> s[K[i]]])
Where(s, P(_)) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : P(s[i]))
Finite(s) == Num(Pick(s, Where(s, RIsNum)))
NoneMissing(s) == \A i \in 1..Len(s) : RIsNum(s[i])
Const(s) == \A i \in 1..Len(s) : REq(s[i], s[1])
StatOk(o, w) == Near(o, w, STol, STol)
POk(o, w) == Near(o, w, PTol, Z0) /\ RLe(Z0, RP(o)) /\ RLe(RP(o), U1)
(* answer <<statistic, p>>, w = [stat, p] *)
Both(o, w) == StatOk(o[1], w.stat) /\ POk(o[2], w.p)
(* no test: refused, or no number *)
NoTest(e) == Raised(e) \/ (e.res.r[2] \in {"nan", "null"})

T1(e) == LET X == Finite(e.x) IN
         IF Len(X) < 2 THEN NoTest(e) ELSE IF Const(X) THEN LeftOpen(e) ELSE ~Raised(e) /\ Both(e.res.r, OneSample(X, RP(e.mu), e.alt))
Welch2(e) == LET X == Finite(e.x) Y == Finite(e.y) IN
             IF Len(X) < 2 \/ Len(Y) < 2 THEN NoTest(e) ELSE IF Const(X) /\ Const(Y) THEN LeftOpen(e)
             ELSE ~Raised(e) /\ Both(e.res.r, Welch(Mean(X), Mean(Y), Var(X, 1), Var(Y, 1), Len(X), Len(Y), e.alt))
(* documented for complete columns only *)
Pooled2(e) == IF ~NoneMissing(e.x) \/ ~NoneMissing(e.y) THEN LeftOpen(e)
              ELSE LET X == Num(e.x) Y == Num(e.y) n == Len(X) IN
                   IF n < 2 THEN NoTest(e) ELSE IF Const(X) /\ Const(Y) THEN LeftOpen(e)
                   ELSE ~Raised(e) /\ Both(e.res.r, Pooled(Mean(X), Mean(Y), Var(X, 1), Var(Y, 1), n, e.alt))
FromStats(e) ==
  LET X == Finite(e.x) n == Len(X) m == RP(e.mean) v == RP(e.var) IN
  IF e.eq /\ ~NoneMissing(e.x) THEN LeftOpen(e)
  ELSE IF n < 2 THEN NoTest(e) ELSE IF Const(X) THEN LeftOpen(e)
  ELSE ~Raised(e) /\ Both(e.res.r, IF e.eq THEN Pooled(Mean(X), m, Var(X, 1), v, n, e.alt) ELSE Welch(Mean(X), m, Var(X, 1), v, n, RFloor(RP(e.cnt)), e.alt))
(* two columns, or one column split by the other's being 1 or 0 *)
Ks(e) ==
  LET X == IF e.binary THEN Finite(Pick(e.y, Where(e.x, LAMBDA v : v = "1"))) ELSE Finite(e.x)
      Y == IF e.binary THEN Finite(Pick(e.y, Where(e.x, LAMBDA v : v = "0"))) ELSE Finite(e.y) IN
  /\ ~Raised(e)
  /\ IF Len(X) < 30 \/ Len(Y) < 30 THEN e.res.r = <<"0", "nan">>
     ELSE StatOk(e.res.r[1], KsStat(X, Y)) /\ StatOk(e.res.r[2], KsThreshold(Len(X), Len(Y), RP(e.alpha)))
(* the groups with a value of the variable *)
FGroups(g, x) == LET L == {g[i] : i \in {i \in 1..Len(g) : g[i] # "null" /\ x[i] # "null"}} IN
                 FoldSet(LAMBDA a, acc : Append(acc, Num(Pick(x, SelectSeq([i \in 1..Len(g) |-> i], LAMBDA i : g[i] = a /\ x[i] # "null")))), <<>>, L)
FTest(e) ==
  LET Q == Eager([j \in 1..Len(e.xs) |-> FGroups(e.g, e.xs[j])]) IN
  IF \E j \in 1..Len(Q) : Len(Q[j]) < 2 THEN Raised(e) \/ \A j \in 1..Len(e.res.rows) : e.res.rows[j][2] \in {"nan", "null"}
  ELSE /\ ~Raised(e) /\ Len(e.res.rows) = Len(Q)
       /\ \A j \in 1..Len(Q) : RSgn(SsWithin(Q[j])) = 0 \/ Both(e.res.rows[j], Anova(Q[j]))
Chi(e) ==
  LET d == ChiDof(e.a, e.b) s == ChiStat(e.a, e.b) w == [stat |-> s, p |-> IF d = 0 THEN U1 ELSE ChiSqSf(s, RI(d))]
      A == Labels(e.a) B == Labels(e.b) F == e.res.full IN
  /\ ~Raised(e) /\ Both(e.res.r, w)
  /\ Len(F) = Cardinality(A) * Cardinality(B)
  /\ \A i \in 1..Len(F) : /\ Both(<<F[i][1], F[i][2]>>, w) /\ F[i][3] = ToString(d)
                          /\ F[i][4] \in A /\ F[i][5] \in B /\ StatOk(F[i][6], Expected(e.a, e.b, F[i][4], F[i][5]))
  /\ \A i, j \in 1..Len(F) : i # j => <<F[i][4], F[i][5]>> # <<F[j][4], F[j][5]>>
MannW(e) == LET X == Finite(e.x) Y == Finite(e.y) IN
            IF X = <<>> \/ Y = <<>> THEN LeftOpen(e) ELSE ~Raised(e) /\ Both(e.res.r, MannWhitney(X, Y, e.alt))
Normal(e) == LET X == Finite(e.x) IN
             IF Len(X) < 20 THEN Raised(e) ELSE IF Const(X) THEN LeftOpen(e)
             ELSE LET w == NormalTest(X) ok(z) == Both(e.res.r, [stat |-> z.stat.v, p |-> z.p.v]) IN
                  w.p = NaN \/ (~Raised(e) /\ (ok(w) \/ (~e.strict /\ LowKurtosis(X) /\ ok(NormalTestUnsigned(X)))))
Accept(e) ==
  CASE e.op = "t1" -> T1(e) [] e.op = "welch" -> Welch2(e) [] e.op = "pooled" -> Pooled2(e) [] e.op = "stats" -> FromStats(e)
    [] e.op = "ks" -> Ks(e) [] e.op = "f" -> FTest(e) [] e.op = "chi" -> Chi(e) [] e.op = "mw" -> MannW(e) [] e.op = "norm" -> Normal(e)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
