-------------------------- MODULE NeighboursTrace --------------------------
(* Queries over a frame (P04) and over a tree object (P05, a history).     *)
EXTENDS TraceCore, Neighbours
VARIABLES ev, verdict
Tiny == Pow2(40)
U(e) == RP(e.unit)
Mask(e, f, i) == ~Has(e, f) \/ e[f][i] = 1
N(e) == Len(e.X)
Ms(e, i) == [j \in 1..N(e) |-> IF Complete(e.X[j]) THEN Measure(e.dist, e.X[i], e.X[j]) ELSE 0]
Pool(e) == {j \in 1..N(e) : Complete(e.X[j]) /\ Mask(e, "data", j)}
InBound(e, C, m, b) == {j \in C : Within(e.dist, U(e), m[j], b)}
Asked(e, i) == Complete(e.X[i]) /\ Mask(e, "eval", i)
NullList == <<-1>>

RowOf(e, id) == {j \in 1..N(e) : e.index[j] = id}
KnnRow(e, i, ids, ds) ==
  IF ~Asked(e, i) THEN ids = NullList /\ ds = <<"null">>
  ELSE LET m == Ms(e, i)
           C == InBound(e, Pool(e), m, RP(e.maxb))
           rows == [x \in 1..Len(ids) |-> CHOOSE j \in RowOf(e, ids[x]) : TRUE]
       IN /\ \A x \in 1..Len(ids) : RowOf(e, ids[x]) # {}
          /\ AreNearest(rows, C, m, e.k + 1)
          /\ ~e.wd \/ (Len(ds) = Len(ids) /\ \A x \in 1..Len(ids) : Near(ds[x], Distance(e.dist, U(e), m[rows[x]]), RI(0), Tiny))
AcceptKnn(e) == Len(e.res.ids) = N(e) /\ \A i \in 1..N(e) : KnnRow(e, i, e.res.ids[i], IF e.wd \/ ~Asked(e, i) THEN e.res.ds[i] ELSE <<>>)

(* with an epsilon, an answer may miss what is within epsilon of its last neighbour *)
Eps(e) == IF Has(e, "eps") THEN RP(e.eps) ELSE RI(0)
Apart(e, eps, a, b) == ~RLe(Distance(e.dist, U(e), b), RAdd(RAdd(Distance(e.dist, U(e), a), eps), Tiny))
Inside(e, eps, a, b) == RLe(RAdd(RAdd(Distance(e.dist, U(e), a), eps), Tiny), b)

KthNear(e, C, m, v) ==
  \E d \in {Distance(e.dist, U(e), m[c]) : c \in C} :
    /\ Near(v, d, RI(0), Tiny)
    /\ LET upto == {c \in C : RLe(Distance(e.dist, U(e), m[c]), RAdd(d, Tiny))}
           before(x) == {c \in C : RLe(RAdd(RAdd(Distance(e.dist, U(e), m[c]), Eps(e)), Tiny), x)}
       IN \/ Cardinality(upto) >= e.k + 1 /\ Cardinality(before(d)) <= e.k
          \/ Cardinality(before(RP(e.maxb))) <= e.k /\ before(RP(e.maxb)) \subseteq upto
AcceptKthEps(e) ==
  Len(e.res.v) = N(e) /\ \A i \in 1..N(e) :
    IF ~Complete(e.X[i]) THEN e.res.v[i] = "null"
    ELSE LET m == Ms(e, i) C == InBound(e, Pool(e), m, RP(e.maxb)) IN
         IF e.res.v[i] = "null" THEN \A c \in C : ~Inside(e, Eps(e), m[c], RP(e.maxb))
         ELSE KthNear(e, C, m, e.res.v[i])

AcceptKth(e) ==
  IF Has(e, "eps") THEN AcceptKthEps(e) ELSE
  Len(e.res.v) = N(e) /\ \A i \in 1..N(e) :
    IF ~Complete(e.X[i]) THEN e.res.v[i] = "null"
    ELSE LET m == Ms(e, i) C == InBound(e, Pool(e), m, RP(e.maxb)) IN
         IF C = {} THEN e.res.v[i] = "null"
         ELSE Near(e.res.v[i], Distance(e.dist, U(e), KthMeasure(C, m, e.k + 1)), RI(0), Tiny)

Radius(e, i) == IF Len(e.r) = 1 THEN e.r[1] ELSE e.r[i]
AcceptRadius(e) ==
  Len(e.res.ids) = N(e) /\ \A i \in 1..N(e) :
    IF ~Complete(e.X[i]) THEN e.res.ids[i] = NullList
    ELSE LET m == Ms(e, i) C == InBound(e, Pool(e), m, RP(e.r[1])) IN
         /\ \A x \in 1..Len(e.res.ids[i]) : RowOf(e, e.res.ids[i][x]) # {}
         /\ LET rows == [x \in 1..Len(e.res.ids[i]) |-> CHOOSE j \in RowOf(e, e.res.ids[i][x]) : TRUE] IN
            /\ {rows[x] : x \in 1..Len(rows)} = C /\ Len(rows) = Cardinality(C)
            /\ e.sort => \A x \in 1..Len(rows) - 1 : m[rows[x]] <= m[rows[x + 1]]
AcceptCount(e) ==
  Len(e.res.v) = N(e) /\ \A i \in 1..N(e) :
    LET r == Radius(e, i) IN
    IF ~Complete(e.X[i]) \/ ~RIsNum(r) \/ (RIsNum(r) /\ RSgn(RP(r)) <= 0) THEN e.res.v[i] = "null"
    ELSE e.res.v[i] = ToString(Cardinality(InBound(e, Pool(e), Ms(e, i), RP(r))))

(* how often each row is a neighbour; ties leave the count between two bounds *)
Freq(e) == [i \in {j \in 1..N(e) : Asked(e, j)} |->
             LET m == Ms(e, i) C == IF e.op = "rfreq" THEN InBound(e, Pool(e), m, RP(e.r[1])) ELSE InBound(e, Pool(e), m, RP(e.maxb))
                 k == IF e.op = "rfreq" THEN N(e) + 1 ELSE e.k + 1
             IN IF C = {} THEN [sure |-> {}, may |-> {}, n |-> 0]
                ELSE IF Cardinality(C) <= k THEN [sure |-> C, may |-> C, n |-> Cardinality(C)]
                ELSE [sure |-> Sure(C, m, k), may |-> Sure(C, m, k) \cup Tied(C, m, k), n |-> k]]
RECURSIVE SumPairs(_)
SumPairs(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN p[2] + SumPairs(S \ {p})
AcceptFreq(e) ==
  LET F == Freq(e)
      idx == e.res.idx cnt == e.res.cnt
      lo(j) == Cardinality({i \in DOMAIN F : j \in F[i].sure})
      hi(j) == Cardinality({i \in DOMAIN F : j \in F[i].may})
      at(j) == {x \in 1..Len(idx) : idx[x] = e.index[j]}
  IN /\ Cardinality({idx[x] : x \in 1..Len(idx)}) = Len(idx) /\ Len(cnt) = Len(idx)
     /\ \A x \in 1..Len(idx) : cnt[x] > 0 /\ RowOf(e, idx[x]) # {}
     /\ \A x \in 1..Len(idx) - 1 : cnt[x] >= cnt[x + 1]
     /\ \A j \in 1..N(e) : LET c == IF at(j) = {} THEN 0 ELSE cnt[CHOOSE x \in at(j) : TRUE] IN lo(j) <= c /\ c <= hi(j)
     /\ SumI(cnt) = SumPairs({<<i, F[i].n>> : i \in DOMAIN F})

(* averages over the neighbour set, for some admissible choice among ties *)
Weight(e, m) == IF ~e.weighted THEN RI(1)
                ELSE LET d == Distance(e.dist, U(e), m) IN
                     IF RLe(RP(e.minb), Pow2(52)) THEN RDiv(RI(1), RAdd(RI(1), d)) ELSE RDiv(RI(1), d)
FarEnough(e, m) == LET x == RMul(RI(m), Unit(e.dist, U(e))) b == RP(e.minb) IN
                   IF e.dist = "l2" THEN RSgn(b) <= 0 \/ RLe(RMul(b, b), x) ELSE RLe(b, x)
AcceptAvg(e) ==
  Len(e.res.v) = N(e) /\ \A i \in 1..N(e) :
    IF ~Complete(e.X[i]) THEN e.res.v[i] = "null"
    ELSE LET m == Ms(e, i) C == InBound(e, Pool(e), m, RP(e.maxb)) IN
      \E S \in NearestSets(C, m, e.k + 1) :
        LET Q == SetToSeq({j \in S : FarEnough(e, m[j])}) IN
        IF Q = <<>> THEN e.res.v[i] = "null"
        ELSE LET w == [x \in 1..Len(Q) |-> Weight(e, m[Q[x]])]
                 y == [x \in 1..Len(Q) |-> RP(e.target[Q[x]])]
             IN Near(e.res.v[i], RDiv(RDot(w, y), RSum(w)), Tiny, Tiny)

AcceptNearPt(e) ==
  Len(e.res.v) = N(e) /\
  LET C == {j \in 1..N(e) : Complete(e.X[j])}
      m == [j \in 1..N(e) |-> IF j \in C THEN Measure(e.dist, e.X[j], e.pt) ELSE 0]
      lim == IF C = {} THEN 0 ELSE KthMeasure(C, m, e.k)
  IN \A i \in 1..N(e) :
     IF i \notin C THEN e.res.v[i] = "null"
     ELSE IF e.op = "isknn" THEN e.res.v[i] = (IF m[i] <= lim THEN "1" ELSE "0")
     ELSE IF ~RIsNum(Radius(e, i)) THEN e.res.v[i] = "null"
     ELSE e.res.v[i] = (IF Within(e.dist, U(e), m[i], RP(Radius(e, i))) THEN "1" ELSE "0")

(* cosine distance from a point, to the precision of the computation *)
CosDist(p, q) ==      \* in rationals: products of large coordinates leave TLC's integers
  LET a == [i \in 1..Len(p) |-> RI(p[i])]
      b == [i \in 1..Len(q) |-> RI(q[i])]
      nn == RMul(RDot(a, a), RDot(b, b))
  IN IF RSgn(nn) = 0 THEN "nan" ELSE RSub(RI(1), RDiv(RDot(a, b), RSqrt(nn, 80)))
AcceptCos(e) ==
  Len(e.res.v) = N(e) /\ \A i \in 1..N(e) :
    IF ~Complete(e.X[i]) THEN e.res.v[i] = "null"
    ELSE LET d == CosDist(e.X[i], e.pt) r == RP(e.r[1]) IN
         IF ~IsRat(d) THEN e.res.v[i] = "0"
         ELSE \/ e.res.v[i] = (IF RLe(d, r) THEN "1" ELSE "0")
              \/ RLe(RAbs(RSub(d, r)), Tiny) /\ e.res.v[i] \in {"0", "1"}

(***************************************************************************)
(* A tree object: the state is the points added so far.                    *)
(***************************************************************************)
PAD == 0 - 1          \* index reported when fewer than k are near (u32::MAX, recorded as -1)
TreeKnn(e, P, s) ==
  /\ Len(s.res.ids) = Len(s.Q) /\ Len(s.res.ds) = Len(s.Q)
  /\ \A i \in 1..Len(s.Q) :
       LET m == [j \in 1..Len(P) |-> Measure(e.dist, P[j], s.Q[i])]
           C == InBound(e, 1..Len(P), m, RP(s.maxb))
           ids == s.res.ids[i] ds == s.res.ds[i]
           n == LeastI(s.k, Cardinality(C))
           eps == RAbs(RP(s.eps))
           got == Cardinality({x \in 1..Len(ids) : ids[x] # PAD})
           Gap(a, b) == Apart(e, eps, a, b)
           Edge(a) == Inside(e, eps, a, RP(s.maxb))
       IN IF Has(s, "eps")
          THEN /\ Len(ids) = s.k /\ Len(ds) = s.k
               /\ AreNearly([x \in 1..got |-> ids[x] + 1], C, m, s.k, Gap, Edge)
               /\ \A x \in 1..got : Near(ds[x], Distance(e.dist, U(e), m[ids[x] + 1]), RI(0), Tiny)
               /\ \A x \in got + 1..s.k : ids[x] = PAD /\ ds[x] = "inf"
          ELSE
          /\ Len(ids) = s.k /\ Len(ds) = s.k
          /\ AreNearest([x \in 1..n |-> ids[x] + 1], C, m, s.k)
          /\ \A x \in 1..n : Near(ds[x], Distance(e.dist, U(e), m[ids[x] + 1]), RI(0), Tiny)
          /\ \A x \in n + 1..s.k : ids[x] = PAD /\ ds[x] = "inf"
TreeWithin(e, P, s) ==
  /\ Len(s.res.ids) = Len(s.Q)
  /\ \A i \in 1..Len(s.Q) :
       LET m == [j \in 1..Len(P) |-> Measure(e.dist, P[j], s.Q[i])]
           r == RP(IF Len(s.r) = 1 THEN s.r[1] ELSE s.r[i])
           C == IF RSgn(r) <= 0 THEN {} ELSE InBound(e, 1..Len(P), m, r)
           ids == s.res.ids[i]
       IN /\ Len(ids) = Cardinality(C) /\ {ids[x] + 1 : x \in 1..Len(ids)} = C
          /\ s.sort => \A x \in 1..Len(ids) - 1 : m[ids[x] + 1] <= m[ids[x + 1] + 1]
          /\ s.wd => /\ Len(s.res.ds[i]) = Len(ids)
                     /\ \A x \in 1..Len(ids) : Near(s.res.ds[i][x], Distance(e.dist, U(e), m[ids[x] + 1]), RI(0), Tiny)
TreeCount(e, P, s) ==
  /\ Len(s.res.v) = Len(s.Q)
  /\ \A i \in 1..Len(s.Q) :
       LET m == [j \in 1..Len(P) |-> Measure(e.dist, P[j], s.Q[i])]
           r == RP(IF Len(s.r) = 1 THEN s.r[1] ELSE s.r[i])
       IN s.res.v[i] = IF RSgn(r) <= 0 THEN 0 ELSE Cardinality(InBound(e, 1..Len(P), m, r))
(* after every step the number of points is reported *)
StepOk(e, P, s) ==
  CASE s.do = "add" -> s.res.n = Len(P) + Len(s.X)
    [] s.do = "badadd" -> s.res.raised /\ s.res.n = Len(P)
    [] s.do = "knn" -> TreeKnn(e, P, s) /\ s.res.n = Len(P)
    [] s.do = "within" -> TreeWithin(e, P, s) /\ s.res.n = Len(P)
    [] s.do = "count" -> TreeCount(e, P, s) /\ s.res.n = Len(P)
StepNext(P, s) == IF s.do = "add" THEN P \o s.X ELSE P
RECURSIVE History(_, _, _)
History(e, P, i) == i > Len(e.steps) \/ (LET s == e.steps[i] @@ [res |-> e.res.steps[i]] IN StepOk(e, P, s) /\ History(e, StepNext(P, s), i + 1))

Accept(e) ==
  /\ ~Raised(e)
  /\ CASE e.op = "knn" -> AcceptKnn(e)
       [] e.op = "kth" -> AcceptKth(e)
       [] e.op = "radius" -> AcceptRadius(e)
       [] e.op = "count" -> AcceptCount(e)
       [] e.op \in {"freq", "rfreq"} -> AcceptFreq(e)
       [] e.op = "avg" -> AcceptAvg(e)
       [] e.op \in {"nearpt", "isknn"} -> AcceptNearPt(e)
       [] e.op = "cos" -> AcceptCos(e)
       [] e.op = "tree" -> History(e, <<>>, 1)

Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
