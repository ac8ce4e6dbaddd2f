---------------------------- MODULE MetricsTrace ----------------------------
(* Recorded regression, ranking, fairness and stability metrics against their definitions. *)
EXTENDS TraceCore, Metrics
VARIABLES ev, verdict
Eps == Pow2(40)
Ok(o, w) == w.k = "open" \/ VOk(o, w, Eps, Eps)
Num(s) == Eager([i \in 1..Len(s) |-> RP(s[i])])
Pick(s, K) == Eager([i \in 1..Len(K) |-> s[K[i]]])
Known(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] # "null")
Finite(s) == LET K == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : RIsNum(s[i])) IN Num(Pick(s, K))

(* rows without an actual value are not counted *)
Err(e, f) ==
  LET K == Known(e.a) A == Num(Pick(e.a, K)) P == Num(Pick(e.p, K)) n == Len(A) d == Diffs(A, P) ad == Abs(d) p == RFloor(RP(e.ad))
      nulls == n < Len(e.a)
      \* metrics computed in the type of the column
      Ok1(o, w) == IF e.ty = "f32" THEN VOk(o, w, Pow2(14), Pow2(14)) ELSE Ok(o, w)
      \* a sum of nothing is 0, a mean of nothing no number
      both(om, os, s) == IF n = 0 THEN os = "0" ELSE Ok(os, VR(RSum(s))) /\ Ok(om, VMean(s))
      lc == Eager([i \in 1..n |-> LogCosh1(d[i])]) hu == Eager([i \in 1..n |-> Huber1(d[i], RP(e.delta))]) IN
  /\ both(f.l1, f.l1s, ad) /\ both(f.lc, f.lcs, lc)
  /\ n = 0 \/ (/\ Ok(f.l2, VMean(Sq(d))) /\ Ok(f.l2s, VR(RSum(Sq(d)))) /\ Ok(f.linf, VR(MaxOf(ad))) /\ Ok(f.hu, VMean(hu))
               /\ Ok(f.r2, R2(A, P)) /\ (nulls \/ n <= p \/ n = 1 \/ Ok(f.ar2, AdjR2(A, P, p)))
               /\ Ok(f.mape, Mape(A, P)) /\ Ok(f.wmape, WMape(A, P)) /\ Ok(f.smape, Smape(A, P))
               /\ Ok1(f.mad, VMean(Abs(Centre(A)))) /\ LET m == Median(A) IN Ok1(f.mad2, VR(Median(Eager([i \in 1..n |-> RAbs(RSub(A[i], m))]))))
               /\ (\E i \in 1..n : RSgn(A[i]) < 0 \/ RSgn(P[i]) < 0)
                  \/ LET q == Sq(Log1pDiff(A, P)) IN Ok1(f.msle, VMean(q)) /\ Ok1(f.msles, VR(RSum(q))))
Mase(e, f) ==
  LET A == Num(e.a) P == Num(e.p) d == Abs(Diffs(A, P)) T == Num(e.t) fr == RFloor(RP(e.freq)) w == Naive(T, fr) c == RP(e.base) IN
  /\ Ok(f.fmean, VQuo(VMean(d), VR(c))) /\ Ok(f.fmed, VQuo(VR(Median(d)), VR(c)))
  /\ IF Len(T) <= fr THEN f.mean \in {"null", "nan"} /\ f.med \in {"null", "nan"}
     ELSE Ok(f.mean, VQuo(VMean(d), VMean(w))) /\ Ok(f.med, VQuo(VR(Median(d)), VR(Median(w))))

(* several classes: one against the rest *)
MAuc(e, f) ==
  LET n == Len(e.y) k == RFloor(RP(e.k)) y == Num(e.y) P == Eager([i \in 1..n |-> Num(e.p[i])])
      one(c) == Auc(Eager([i \in 1..n |-> [a |-> IF REq(y[i], RI(c - 1)) THEN 1 ELSE 0, s |-> P[i][c], c |-> RI(1)]]))
      sup(c) == Cardinality({i \in 1..n : REq(y[i], RI(c - 1))})
      O == Eager([c \in 1..k |-> one(c)]) nan == \E c \in 1..k : ~IsNum(O[c]) IN
  /\ Ok(f.macro, IF nan THEN NaN ELSE VR(RDiv(RSum([c \in 1..k |-> O[c].v]), RI(k))))
  /\ Ok(f.weighted, IF nan THEN NaN ELSE VR(RDiv(RSum([c \in 1..k |-> RMul(RI(sup(c)), O[c].v)]), RI(n))))
Cce(e, f) ==
  LET n == Len(e.y) q == Eager([i \in 1..n |-> RP(e.p[i][RFloor(RP(e.y[i])) + 1])])
      w == IF \E i \in 1..n : RSgn(q[i]) = 0 THEN Inf ELSE VR(RNeg(RSum([i \in 1..n |-> Ln(q[i])]))) IN
  Ok(f.sum, w) /\ Ok(f.mean, VQuo(w, VI(n)) ) /\ Ok(f.dsum, w)
CceInf(e, f) == f.sum = "inf" /\ f.mean = "inf" /\ f.dsum = "inf"
Fair(e, f) ==
  LET pick(z) == LET K == SelectSeq([i \in 1..Len(e.p) |-> i], LAMBDA i : e.z[i] = z /\ e.p[i] # "null") IN Num(Pick(e.p, K))
      a == VMean(pick("1")) b == VMean(pick("0")) r == VQuo(a, b) IN
  IF a.k = "null" \/ b.k = "null" THEN f.fair = "null" /\ (f.pct = "null" \/ f.pct = "nan")
  ELSE /\ Ok(f.fair, VR(RAbs(RSub(a.v, b.v))))
       /\ IF RSgn(a.v) = 0 /\ RSgn(b.v) = 0 THEN f.pct = "nan"
          ELSE Ok(f.pct, VR(IF RSgn(a.v) = 0 \/ RSgn(b.v) = 0 THEN Z0 ELSE RMin(RDiv(a.v, b.v), RDiv(b.v, a.v))))
(* the mean over the groups of more than one item *)
NdcgGroups(e) == {e.grp[i] : i \in 1..Len(e.grp)}
Ndcg(e, f) ==
  LET k == IF e.k = "0" THEN Len(e.rel) ELSE RFloor(RP(e.k))
      group(g) == LET K == SelectSeq([i \in 1..Len(e.grp) |-> i], LAMBDA i : e.grp[i] = g) IN
                  Eager([i \in 1..Len(K) |-> [v |-> RP(e.rel[K[i]]), s |-> RP(e.score[K[i]])]])
      size(g) == Cardinality({i \in 1..Len(e.grp) : e.grp[i] = g})
      GS == {g \in NdcgGroups(e) : size(g) > 1} IN
  IF ~e.ties /\ \E g \in GS : Unordered(group(g)) THEN LeftOpen(e)
  ELSE IF GS = {} THEN f.v = "null"
  ELSE Ok(f.v, VR(RDiv(FoldSet(LAMBDA g, acc : RAdd(acc, Ndcg1(group(g), k, e.ties)), Z0, GS), RI(Cardinality(GS)))))

RowsOk(f, R) ==
  /\ Len(f.rows) = Len(R)
  /\ \A j \in 1..Len(R) : /\ Ok(f.rows[j][1], R[j].brk) /\ Ok(f.rows[j][2], VR(R[j].b)) /\ Ok(f.rows[j][3], VR(R[j].a)) /\ Ok(f.rows[j][4], VR(R[j].psi))
Psi(e, f) ==
  LET X == Finite(e.base) Y == Finite(e.new) k == RFloor(RP(e.k)) IN
  IF X = <<>> \/ Y = <<>> \/ Touchy(X, Y, k) THEN LeftOpen(e)
  ELSE LET R == PsiRows(X, Y, PsiBreaks(X, k)) IN RowsOk(f, R) /\ Ok(f.sum, VR(Total(R)))
PsiW(e, f) ==
  LET X == Finite(e.base) Y == Finite(e.new) IN
  IF X = <<>> \/ Y = <<>> THEN LeftOpen(e) ELSE RowsOk(f, PsiRows(X, Y, Num(e.brk)))
(* every value is a category, also null *)
Occ(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Cats(s) == {s[i] : i \in 1..Len(s)}
PsiD(e, f) ==
  LET C == Cats(e.base) \cup Cats(e.new) nb == Len(e.base) na == Len(e.new)
      row(c) == LET b == Part(Occ(e.base, c), nb) a == Part(Occ(e.new, c), na) IN [b |-> b, a |-> a, psi |-> PsiTerm(b, a)]
      side(c, s) == IF c \in Cats(s) THEN c ELSE "null"
      good(o, c) == /\ o[1] = side(c, e.base) /\ o[2] = side(c, e.new)
                    /\ Ok(o[3], VR(row(c).b)) /\ Ok(o[4], VR(row(c).a)) /\ Ok(o[5], VR(row(c).psi)) IN
  IF nb = 0 \/ na = 0 THEN LeftOpen(e)
  ELSE /\ Len(f.rows) = Cardinality(C)
       /\ \A c \in C : Cardinality({j \in 1..Len(f.rows) : good(f.rows[j], c)}) = 1
       /\ Ok(f.sum, VR(FoldSet(LAMBDA c, acc : RAdd(acc, row(c).psi), Z0, C)))

(* classes C of the rows, class(i) of row i; a row without class or target is not counted *)
WoeOk(f, C, class, target, isum) ==
  LET I == SelectSeq([i \in 1..Len(class) |-> i], LAMBDA i : class[i] # "none" /\ target[i] # "null")
      g(c) == Cardinality({i \in 1..Len(I) : class[I[i]] = c /\ target[I[i]] = "1"})
      b(c) == Cardinality({i \in 1..Len(I) : class[I[i]] = c /\ target[I[i]] = "0"})
      GG == RI(Cardinality({i \in 1..Len(I) : target[I[i]] = "1"})) BB == RI(Cardinality({i \in 1..Len(I) : target[I[i]] = "0"}))
      C2 == {c \in C : \E i \in 1..Len(I) : class[I[i]] = c}
      woe(c) == Woe(RI(g(c)), RI(b(c)), GG, BB) iv(c) == Iv(RI(g(c)), RI(b(c)), GG, BB)
      one(rows, c, w) == Cardinality({j \in 1..Len(rows) : rows[j][1] = c}) = 1 /\ \A j \in 1..Len(rows) : rows[j][1] = c => Ok(rows[j][2], VR(w)) IN
  /\ Len(f.woe) = Cardinality(C2) /\ Len(f.iv) = Cardinality(C2)
  /\ \A c \in C2 : one(f.woe, c, woe(c)) /\ one(f.iv, c, iv(c))
  /\ Ok(f.sum, VR(FoldSet(LAMBDA c, acc : RAdd(acc, iv(c)), Z0, C2)))
WoeD(e, f) ==
  LET class == [i \in 1..Len(e.x) |-> IF e.x[i] = "null" THEN "none" ELSE e.x[i]] IN
  WoeOk(f, {class[i] : i \in 1..Len(class)} \ {"none"}, class, e.t, f.sum)
(* bins are named by their upper ends; the recorded names are matched to the breaks *)
WoeN(e, f) ==
  LET X == Finite(e.x) k == RFloor(RP(e.k)) IN
  IF X = <<>> \/ Touchy(X, X, k) THEN LeftOpen(e)
  ELSE LET B == QBreaks(X, k)
           name(j) == IF j > Len(B) THEN "inf" ELSE ToString(j)
           class == Eager([i \in 1..Len(e.x) |-> IF RIsNum(e.x[i]) THEN name(BinOf(B, RP(e.x[i]))) ELSE "none"])
           \* a label may be rounded a little
           named(o) == IF o = "inf" THEN "inf"
                       ELSE LET J == {j \in 1..Len(B) : Near(o, B[j], Pow2(16), Pow2(16))} IN IF Cardinality(J) = 1 THEN ToString(CHOOSE j \in J : TRUE) ELSE "?"
           relabel(rows) == Eager([r \in 1..Len(rows) |-> <<named(rows[r][1]), rows[r][2]>>]) IN
       WoeOk([woe |-> relabel(f.woe), iv |-> relabel(f.iv), sum |-> f.sum], {name(j) : j \in 1..(Len(B) + 1)}, class, e.t, f.sum)

(* nothing to bin *)
Empty(e) == (e.op \in {"psi", "psiw"} /\ (Finite(e.base) = <<>> \/ Finite(e.new) = <<>>)) \/ (e.op = "woe" /\ Finite(e.x) = <<>>)
Accept(e) ==
  IF Empty(e) THEN LeftOpen(e) ELSE
  /\ ~Raised(e)
  /\ CASE e.op = "err" -> Err(e, e.res)
       [] e.op = "mase" -> Mase(e, e.res)
       [] e.op = "mauc" -> MAuc(e, e.res)
       [] e.op = "cce" -> IF \E i \in 1..Len(e.y) : RSgn(RP(e.p[i][RFloor(RP(e.y[i])) + 1])) = 0 THEN CceInf(e, e.res) ELSE Cce(e, e.res)
       [] e.op = "fair" -> Fair(e, e.res)
       [] e.op = "ndcg" -> Ndcg(e, e.res)
       [] e.op = "psi" -> Psi(e, e.res)
       [] e.op = "psiw" -> PsiW(e, e.res)
       [] e.op = "psid" -> PsiD(e, e.res)
       [] e.op = "woed" -> WoeD(e, e.res)
       [] e.op = "woe" -> WoeN(e, e.res)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
