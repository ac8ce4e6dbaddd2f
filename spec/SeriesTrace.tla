---------------------------- MODULE SeriesTrace ----------------------------
(* Recorded series features against their definitions. *)
EXTENDS TraceCore, Series
LOCAL R == INSTANCE Regression
VARIABLES ev, verdict
Eps == Pow2(34)
Tol(e) == IF e.ty = "f32" THEN Pow2(12) ELSE Eps
Num(s) == Eager([i \in 1..Len(s) |-> RP(s[i])])
Pick(s, K) == Eager([i \in 1..Len(K) |-> s[K[i]]])
In(s) == RFloor(RP(s))
Ok(o, w) == w.k = "open" \/ VOk(o, w, Eps, Eps)
Opt(c, w) == IF c THEN VR(w) ELSE Open

Basic(e, f) ==
  LET S == Num(e.s) n == Len(S) k == In(e.k) top == In(e.top) t == Tol(e) lev == Labels(e.s)
      ok(o, w) == VOk(o, VR(w), t, t) IN
  /\ f.range = ToString(Cardinality({i \in 1..n : RLe(RP(e.lo), S[i]) /\ RLe(S[i], RP(e.hi))}))
  /\ f.uniq = ToString(Cardinality({i \in 1..n : Times(e.s, e.s[i]) = 1}))
  /\ n > 0 =>
       LET mean == Mean(S) IN
       /\ ok(f.mid, MidRange(S)) /\ ok(f.energy, Energy(S)) /\ ok(f.top, TopMean(S, top))
       /\ Constant(S) \/ ok(f.symm, SymmRatio(S))
       /\ n = 1 \/ ok(f.mac, MeanAbsChange(S))
       /\ n <= 1 \/ RSgn(mean) = 0 \/ VOk(f.cv, VR(RDiv(Sqrt(Var(S, 1)), mean)), RDiv(t, RMin(U1, RAbs(mean))), t)
       /\ ok(f.cid, Sqrt(CidCe2(S)))
       /\ n <= 1 \/ Constant(S) \/ ok(f.cidn, Sqrt(RDiv(CidCe2(S), Var(S, 1))))
       /\ n <= 2 * k \/ (ok(f.c3, C3(S, k)) /\ ok(f.rev, Reversal(S, k)))
       /\ n <= k \/ (ok(f.acr, LagMean(S, k)) /\ (Constant(S) \/ ok(f.ac, AutoCorr(S, k, In(e.ddof)))))
Streak(e, f) ==
  /\ f.longest = ToString(Longest(e.b, "1")) /\ Ok(f.avg, VR(MeanRun(e.b, "1")))
  /\ f.runs = [i \in 1..Len(Runs(e.b)) |-> ToString(Runs(e.b)[i][2])]
Lz(e, f) == LET c == LempelZiv([i \in 1..Len(e.b) |-> e.b[i] = "1"]) IN
            f.c = ToString(c) /\ (Len(e.b) = 0 \/ Ok(f.ratio, VR(RQ(c, Len(e.b)))))
(* a float stands for the numbers that round to it *)
Digits(e, i) == LET x == RP(e.s[i]) w == IF e.ty = "f32" THEN Pow2(24) ELSE IF e.ty = "f64" THEN Pow2(53) ELSE Z0 IN
                {FirstDigit(RMul(x, RAdd(U1, d))) : d \in {RNeg(w), Z0, w}}
FirstD(e, f) ==
  LET K == {i \in 1..Len(e.s) : RIsNum(e.s[i]) /\ RSgn(RP(e.s[i])) # 0} D == [i \in K |-> Digits(e, i)] IN
  /\ Len(f.c) = 9
  /\ \A d \in 1..9 : LET c == In(f.c[d]) IN Cardinality({i \in K : D[i] = {d}}) <= c /\ c <= Cardinality({i \in K : d \in D[i]})
  /\ ISeq([d \in 1..9 |-> In(f.c[d])], 9) = Cardinality(K)
Ent(e, f) ==
  LET c == Counts(e.x) lb == Ln(RP(e.base)) n == Len(e.x) IN
  n = 0 \/ (/\ Ok(f.h, VR(RDiv(Entropy(e.x), lb))) /\ (Len(c) = 1 \/ Ok(f.raw, VR(RDiv(EntropyOf([i \in 1..Len(c) |-> RI(c[i])]), lb))))
            /\ Ok(f.cxy, VR(CondEntropy(e.x, e.y))) /\ Ok(f.cyx, VR(CondEntropy(e.y, e.x))))
Perm(e, f) ==
  LET S == Num(e.s) tau == In(e.tau) d == In(e.d) IN
  IF Len(S) <= (d - 1) * tau THEN LeftOpen(e) ELSE Ok(f.h, VR(RDiv(PermEntropy(S, tau, d), Ln(RP(e.base)))))
Reg(e, f) ==
  LET S == Num(e.s) m == In(e.m) n == Len(S)
      ra == IF e.scale THEN RMul(RP(e.r), Sqrt(Var(S, 1))) ELSE RP(e.r)
      rs == RMul(RP(e.r), Sqrt(Var(S, 0)))
      open(r) == RSgn(r) = 0 \/ Marginal(S, r, Pow2(30)) IN
  IF n < 2 * m \/ n < 2 THEN LeftOpen(e)
  ELSE /\ open(ra) \/ (Ok(f.ap, VR(ApEn(S, m, ra))) /\ Ok(f.ap2, VR(ApEn(S, m, ra))))
       /\ open(rs) \/ (Ok(f.sa, SampEn(S, m, rs)) /\ Ok(f.sa2, SampEn(S, m, rs)))
Sim(e, f) ==
  LET S == Num(e.s) Q == Num(e.q) thr == RP(e.thr) z == e.metric = "sqzl2" IN
  IF Len(Q) > Len(S) \/ (z /\ Constant(Q)) THEN LeftOpen(e)
  ELSE LET D == SimDists(Q, S, z) c == Cardinality({i \in 1..Len(D) : RLt(D[i], thr)}) IN
       \* distances of small multiples of 1/8 are exact
       LET eighth(x) == LET y == RMul(RI(8), x) IN REq(RI(RFloor(y)), y) /\ RLe(RAbs(x), RI(4096))
           exact == ~z /\ (\A i \in 1..Len(S) : eighth(S[i])) /\ \A i \in 1..Len(Q) : eighth(Q[i]) IN
       IF ~exact /\ \E i \in 1..Len(D) : RLe(RAbs(RSub(D[i], thr)), RMul(Pow2(24), RAdd(U1, thr))) THEN LeftOpen(e)
       ELSE f.c = ToString(c) /\ f.c2 = f.c /\ Ok(f.ratio, VR(RQ(c, Len(D))))
Knn(e, f) ==
  LET C == Eager([j \in 1..Len(e.cols) |-> Num(e.cols[j])]) k == In(e.k) IN
  /\ Ok(f.h, KnnEntropy(Points(C), k, e.metric)) /\ Ok(f.h2, KnnEntropy(Points(C), k, e.metric))
  /\ LET w == CopulaEntropy(C, k) IN Ok(f.cop, w)
Ci(e, f) == LET k == In(e.k) x == Num(e.x) y == Num(e.y) z == Num(e.z) IN
            IF Len(x) <= k THEN LeftOpen(e) ELSE Ok(f.ci, CondIndep(x, y, z, k))
Te(e, f) == LET k == In(e.k) x == Num(e.x) y == Num(e.y) lag == In(e.lag) IN
            IF Len(x) - lag <= k THEN LeftOpen(e) ELSE Ok(f.te, TransferEntropy(x, y, lag, k))
(* the value regressed on the values before it *)
Ar(e, f) ==
  LET S == Num(e.s) k == In(e.lag) n == Len(S) - k IN
  IF n < k + 1 THEN LeftOpen(e)
  ELSE LET X == R!WithBias(Eager([t \in 1..n |-> [j \in 1..k |-> S[k + t - j]]]), e.bias) y == SubSeq(S, k + 1, Len(S)) u == Ones(n)
           P == R!Problem(X, y, u, Z0, e.bias) IN
       IF ~P.ok \/ RLe(RPow(RI(2), 24), R!Condition(P)) THEN LeftOpen(e)
       ELSE LET tol == RMul(Pow2(44), R!Sensitivity(P, X, y, u)) IN
            Len(f.b) = Len(P.beta) /\ \A j \in 1..Len(P.beta) : Near(f.b[j], P.beta[j], tol, Z0)
Accept(e) ==
  IF Raised(e) THEN /\ \/ e.op = "reg" /\ Len(e.s) < 2 * In(e.m)
                       \/ e.op = "sim" /\ Len(e.q) > Len(e.s)
                       \/ e.op = "perm" /\ Len(e.s) <= (In(e.d) - 1) * In(e.tau)
                       \/ e.op = "ar" /\ Len(e.s) - In(e.lag) < In(e.lag) + 1
                       \/ e.op = "te" /\ Len(e.x) - In(e.lag) <= In(e.k)
                    /\ LeftOpen(e)
  ELSE CASE e.op = "basic" -> Basic(e, e.res) [] e.op = "streak" -> Streak(e, e.res) [] e.op = "lz" -> Lz(e, e.res) [] e.op = "fd" -> FirstD(e, e.res)
         [] e.op = "ent" -> Ent(e, e.res) [] e.op = "perm" -> Perm(e, e.res) [] e.op = "reg" -> Reg(e, e.res) [] e.op = "sim" -> Sim(e, e.res)
         [] e.op = "knn" -> Knn(e, e.res) [] e.op = "ci" -> Ci(e, e.res) [] e.op = "te" -> Te(e, e.res) [] e.op = "ar" -> Ar(e, e.res)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
