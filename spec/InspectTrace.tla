---------------------------- MODULE InspectTrace ----------------------------
(* Recorded answers of the data inspector against what the frame says. *)
EXTENDS TraceCore, Inspect, SequencesExt
VARIABLES ev, verdict
Eps == Pow2(36)
Ok(o, w) == w.k = "open" \/ VOk(o, w, Eps, Eps)
(* float32 columns are answered in their own precision *)
EpsOf(c) == IF c.ty = "f32" THEN Pow2(17) ELSE Eps
OkC(c, o, w) == VOk(o, w, EpsOf(c), EpsOf(c))
C(e) == e.cols
Range1(s) == {s[i] : i \in 1..Len(s)}
Once(s) == Cardinality(Range1(s)) = Len(s)
SetIs(out, S) == Once(out) /\ Range1(out) = S
OfType(e, T) == {C(e)[i].name : i \in {j \in 1..Len(C(e)) : C(e)[j].ty \in T}}
Height(e) == Tall(C(e)[1])

(* asks one after another, each answered for the frame, whatever became of the earlier answers *)
Session(e, f) == /\ Len(f.a) = Len(e.asks) /\ \A i \in 1..Len(e.asks) : NamesOk(C(e), e.asks[i], f.a[i])
Meta(e, f) ==
  /\ SetIs(f.numerics, OfType(e, Numerics)) /\ SetIs(f.ints, OfType(e, Ints)) /\ SetIs(f.floats, OfType(e, Floats))
  /\ SetIs(f.strs, OfType(e, {"str"})) /\ SetIs(f.bools, OfType(e, {"bool"})) /\ SetIs(f.cats, OfType(e, {"cat"}))
  /\ SetIs(f.list_floats, OfType(e, {"lf"})) /\ SetIs(f.list_ints, OfType(e, {"li"})) /\ SetIs(f.list_str, OfType(e, {"ls"})) /\ SetIs(f.list_bool, OfType(e, {"lb"}))
  /\ SetIs(f.other_types, OfType(e, {"other"}))
  /\ SetIs(f.simple_types, {C(e)[i].name : i \in 1..Len(C(e))} \ OfType(e, {"other"}))

Share(o, k, n) == n = 0 \/ Near(o, RQ(k, n), Eps, Z0)
HowMany(c, S) == Cardinality({i \in 1..Tall(c) : c.v[i] \in S})
Special(e, f) ==
  LET N == SelectSeq(C(e), LAMBDA c : c.ty \in Numerics) IN
  /\ Len(f.rows) = Len(N)
  /\ \A i \in 1..Len(N) : LET r == f.rows[i] c == Col(C(e), r.column) n == Tall(c) IN
       /\ r.nulls = NullCount(c) /\ r.nans = HowMany(c, {"nan"}) /\ r.infs = HowMany(c, {"inf", "-inf"})
       /\ Share(r.nullp, r.nulls, n) /\ Share(r.nanp, r.nans, n) /\ Share(r.infp, r.infs, n)
  /\ Once([i \in 1..Len(f.rows) |-> f.rows[i].column])

Finite(c) == \A i \in 1..Tall(c) : c.v[i] \notin {"nan", "inf", "-inf"}
IsOneOf(o, S) == \E x \in S : Near(o, x, Eps, Eps)
Outliers(S, r, m, tol) ==
  LET q1 == RP(r.q1) q3 == RP(r.q3) w == RMul(m, RSub(q3, q1)) lo == RSub(q1, w) hi == RAdd(q3, w) e == tol
      out(x, s) == RLt(x, RAdd(lo, s)) \/ RLt(RSub(hi, s), x)
      N(s) == Cardinality({i \in 1..Len(S) : out(S[i], s)}) IN
  N(RNeg(RMul(e, RAdd(U1, RAbs(w))))) <= r.outliers /\ r.outliers <= N(RMul(e, RAdd(U1, RAbs(w))))
Profile1(e, c, r) ==
  LET K == Known(c) n == Len(K) IN
  /\ r.count = n /\ Share(r.nullp, NullCount(c), Tall(c))
  /\ IF ~Finite(c) THEN TRUE
     ELSE IF n = 0 THEN \A o \in {r.mean, r.std, r.min, r.max, r.q1, r.q3, r.median} : o = "null"
     ELSE LET S == Seqs(c) lo == Sorted(S)[1] hi == Sorted(S)[n] IN
          /\ OkC(c, r.mean, VR(Mean(S))) /\ (IF n = 1 THEN r.std = "null" ELSE RSgn(Var(S, 1)) = 0 \/ OkC(c, r.std, VR(Sqrt(Var(S, 1)))))
          /\ Ok(r.min, VR(lo)) /\ Ok(r.max, VR(hi)) /\ OkC(c, r.median, VR(Median(S)))
          /\ IsOneOf(r.q1, Nearest(S, RQ(1, 4))) /\ IsOneOf(r.q3, Nearest(S, RQ(3, 4)))
          /\ Near(r.iqr, RSub(RP(r.q3), RP(r.q1)), EpsOf(c), EpsOf(c))
          /\ Outliers(S, r, RP(e.mult), EpsOf(c))
          /\ e.hist /\ RLt(lo, hi) =>
               IF \E i \in 1..n : OnEdge(S[i], lo, hi, e.bins) THEN ISum(r.hist, Len(r.hist)) = n
               ELSE r.hist = Bins(S, e.bins)
Profile(e, f) ==
  LET N == SelectSeq(C(e), LAMBDA c : c.ty \in Numerics) IN
  /\ Len(f.rows) = Len(N) /\ Once([i \in 1..Len(f.rows) |-> f.rows[i].column])
  /\ \A i \in 1..Len(f.rows) : Profile1(e, Col(C(e), f.rows[i].column), f.rows[i])

Bytes(ch) == IF ch < 128 THEN 1 ELSE IF ch < 2048 THEN 2 ELSE IF ch < 65536 THEN 3 ELSE 4
ByteLen(s) == ISum([i \in 1..Len(s) |-> Bytes(s[i])], Len(s))
Texts1(e, c, r) ==
  LET K == Known(c) n == Len(K) B == Eager([i \in 1..n |-> RI(ByteLen(K[i]))]) L == Eager([i \in 1..n |-> RI(Len(K[i]))])
      most == CHOOSE m \in 0..Tall(c) : (m = 0 \/ \E i \in 1..Tall(c) : Times(c.v, c.v[i]) = m) /\ \A i \in 1..Tall(c) : Times(c.v, c.v[i]) <= m IN
  /\ r.nulls = NullCount(c) /\ r.nunique = NUnique(c)
  /\ Tall(c) = 0 \/ (r.mostcnt = most /\ Times(c.v, r.most) = most)
  /\ IF n = 0 THEN \A o \in {r.minb, r.minc, r.avgb, r.avgc, r.maxb, r.maxc} : o = "null"
     ELSE /\ Ok(r.minb, VR(Sorted(B)[1])) /\ Ok(r.maxb, VR(Sorted(B)[n])) /\ Ok(r.minc, VR(Sorted(L)[1])) /\ Ok(r.maxc, VR(Sorted(L)[n]))
          /\ Ok(r.avgb, VR(Mean(B))) /\ Ok(r.avgc, VR(Mean(L)))
          /\ IsOneOf(r.b5, Nearest(B, RQ(1, 20))) /\ IsOneOf(r.b95, Nearest(B, RQ(19, 20)))
StrStats(e, f) ==
  /\ SetIs([i \in 1..Len(f.rows) |-> f.rows[i].column], OfType(e, {"str"}))
  /\ \A i \in 1..Len(f.rows) : Texts1(e, Col(C(e), f.rows[i].column), f.rows[i])

(* rows that break a rule *)
RowRules(e, f) ==
  LET V == Violators(C(e), e.rules, Height(e)) IN
  /\ Len(f.ids) = Len(V) /\ Len(f.why) = Len(V)
  /\ \A j \in 1..Len(V) :
       LET B == {e.rules[k].name : k \in Broken(C(e), e.rules, V[j])} IN
       /\ f.ids[j] = ToString(V[j] - 1)
       /\ IF e.all THEN SetIs(f.why[j], B) ELSE Len(f.why[j]) = 1 /\ f.why[j][1] \in B
       /\ \A k \in 1..Len(e.keep) : f.kept[k][j] = Col(C(e), e.keep[k]).v[V[j]]
ColRules(e, f) ==
  LET bad == {k \in 1..Len(e.rules) : AggHolds(Col(C(e), e.rules[k].col), e.rules[k]) = "f"} IN
  /\ Len(f.rows) = Cardinality(bad)
  /\ \A k \in bad : \E j \in 1..Len(f.rows) : f.rows[j] = <<e.rules[k].col, e.rules[k].name>>
  /\ Once(f.rows)

(* tables of pairs of columns, the strongest first *)
PairSet(rows) == {<<rows[i].x, rows[i].y>> : i \in 1..Len(rows)}
Strongest(rows) == \A i, j \in 1..Len(rows) : i < j /\ RIsNum(rows[i].v) /\ RIsNum(rows[j].v) => RLe(RAbs(RP(rows[j].v)), RAdd(RAbs(RP(rows[i].v)), Eps))
PairsOf(N) == {<<N[i], N[j]>> : <<i, j>> \in {p \in (1..Len(N)) \X (1..Len(N)) : p[1] < p[2]}}
NoOrder(S) == {{p[1], p[2]} : p \in S}
Keep(e) == SelectSeq([i \in 1..Height(e) |-> i], LAMBDA i : e.filter = <<>> \/ Holds(C(e), e.filter[1], i) = "t")
NullBits(e, name) == LET c == Col(C(e), name) K == Keep(e) IN Eager([i \in 1..Len(K) |-> IF c.v[K[i]] = NullOf(c) THEN U1 ELSE Z0])
AllSame(S) == \A i \in 1..Len(S) : REq(S[i], S[1])
NullCorr(e, f) ==
  LET N == SelectSeq(e.subset, LAMBDA x : ~AllSame(NullBits(e, x))) IN
  /\ Len(f.rows) = Cardinality(PairsOf(N)) /\ NoOrder(PairSet(f.rows)) = NoOrder(PairsOf(N)) /\ Strongest(f.rows)
  /\ \A i \in 1..Len(f.rows) : Ok(f.rows[i].v, Pearson(NullBits(e, f.rows[i].x), NullBits(e, f.rows[i].y)))
Nums(e, name) == Seqs(Col(C(e), name))
CorrOf(e, x, y) == LET X == Nums(e, x) Y == Nums(e, y) IN
  IF AllSame(X) \/ AllSame(Y) THEN Open
  ELSE CASE e.method = "pearson" -> Pearson(X, Y) [] e.method = "spearman" -> Spearman(X, Y)
         [] e.method = "kendall" -> TauB(Len(X), LAMBDA i, j : Sign(X[i], X[j]), LAMBDA i, j : Sign(Y[i], Y[j])) [] e.method = "bicor" -> Bicor(X, Y, RI(9))
Corr(e, f) ==
  /\ [i \in 1..Len(f.rows) |-> f.rows[i].column] = e.subset
  /\ \A i \in 1..Len(f.rows) : SetIs([k \in 1..Len(f.rows[i].names) |-> f.rows[i].names[k]], OfType(e, Numerics))
  /\ \A i \in 1..Len(f.rows) : \A k \in 1..Len(f.rows[i].names) : LET w == CorrOf(e, f.rows[i].column, f.rows[i].names[k]) t == IF \E m \in {f.rows[i].column, f.rows[i].names[k]} : Col(C(e), m).ty = "f32" THEN Pow2(14) ELSE Eps IN
       w.k = "open" \/ VOk(f.rows[i].v[k], w, t, t)
InferCorr(e, f) ==
  LET N == SetToSeq(OfType(e, Numerics \cup {"bool"})) IN
  /\ Len(f.rows) = Cardinality(PairsOf(N)) /\ NoOrder(PairSet(f.rows)) = NoOrder(PairsOf(N)) /\ Strongest(f.rows)
  /\ \A i \in 1..Len(f.rows) : Ok(f.rows[i].v, CorrOf(e, f.rows[i].x, f.rows[i].y))

(* dependencies *)
Candidate(e) == {x \in Range1(e.subset) : LET c == Col(C(e), x) IN c.ty \in Ints \cup {"str", "cat", "bool"} /\ NUnique(c) > 1}
Left(e, x, y) == CondEntropy(Col(C(e), x).v, Col(C(e), y).v)
Dep(e, f) ==
  LET N == SetToSeq(Candidate(e)) IN
  /\ Len(f.rows) = Cardinality(PairsOf(N)) /\ NoOrder(PairSet(f.rows)) = NoOrder(PairsOf(N))
  /\ \A i \in 1..Len(f.rows) :
       /\ NUnique(Col(C(e), f.rows[i].x)) <= NUnique(Col(C(e), f.rows[i].y))
       /\ Near(f.rows[i].v, Left(e, f.rows[i].x, f.rows[i].y), Eps, Eps)
  /\ \A i \in 1..(Len(f.rows) - 1) : RLe(RP(f.rows[i].v), RAdd(RP(f.rows[i + 1].v), Eps))
(* an arrow goes from a column to what it determines; of columns that determine each other either may come first *)
PlotDep(e, f) ==
  LET N == Candidate(e) E == {f.edges[i] : i \in 1..Len(f.edges)} det(y, x) == Determines(Col(C(e), y).v, Col(C(e), x).v) IN
  IF \E x, y \in N : x # y /\ ~det(y, x) /\ RLt(Left(e, x, y), RMul(RI(2), RP(e.thr))) THEN LeftOpen(e)
  ELSE /\ Once(f.edges) /\ Acyclic(E)
       /\ \A a \in E : a[1] \in N /\ a[2] \in N /\ det(a[1], a[2]) /\ ~Redundant(E, a)
       /\ \A x, y \in N : x # y /\ det(y, x) => Path(E, y, x) \/ (det(x, y) /\ Path(E, x, y))
Accept(e) ==
  /\ ~Raised(e)
  /\ CASE e.op = "session" -> Session(e, e.res) [] e.op = "meta" -> Meta(e, e.res) [] e.op = "special" -> Special(e, e.res)
       [] e.op = "profile" -> Profile(e, e.res) [] e.op = "strs" -> StrStats(e, e.res) [] e.op = "rows" -> RowRules(e, e.res)
       [] e.op = "colrules" -> ColRules(e, e.res) [] e.op = "nullcorr" -> NullCorr(e, e.res) [] e.op = "corr" -> Corr(e, e.res)
       [] e.op = "infercorr" -> InferCorr(e, e.res) [] e.op = "dep" -> Dep(e, e.res) [] e.op = "plotdep" -> PlotDep(e, e.res)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
