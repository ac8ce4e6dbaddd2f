----------------------------- MODULE DrawsTrace -----------------------------
(***************************************************************************)
(* Trace validation of combinations, products and random columns.          *)
(***************************************************************************)
EXTENDS Draws, TraceCore
VARIABLES ev, verdict
RECURSIVE SortDistinct(_)
SortDistinct(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : RLe(RP(x), RP(y)) IN <<m>> \o SortDistinct(S \ {m})
SetOf(q) == {q[i] : i \in 1..Len(q)}
NotNull(q) == SelectSeq(q, LAMBDA o : o # "null")
Pick(q, I) == [i \in 1..Len(I) |-> q[I[i]]]
Comb(e, out) ==
  LET q == IF e.uniq THEN SortDistinct(SetOf(NotNull(e.x))) ELSE NotNull(e.x) C == Combos(1, Len(q), e.k) IN
  /\ Len(out) = Len(C) /\ \A i \in 1..Len(C) : out[i] = Pick(q, C[i])
CombRefuses(e) == LET q == NotNull(e.x) IN (IF e.uniq THEN Cardinality(SetOf(q)) ELSE Len(q)) < e.k
Prod(e, out) == LET x == NotNull(e.x) y == NotNull(e.y) P == Prods(Len(x), Len(y)) IN
                out = [i \in 1..Len(P) |-> <<x[P[i][1]], y[P[i][2]]>>]

(***************************************************************************)
(* Random columns.                                                         *)
(***************************************************************************)
IsInt(o) == RIsNum(o) /\ REq(RI(RFloor(RP(o))), RP(o))
Column(e) == LET q == NotNull(e.x) IN [i \in 1..Len(q) |-> RP(q[i])]
MinR(q) == CHOOSE v \in SetOf(q) : \A w \in SetOf(q) : RLe(v, w)
MaxR(q) == CHOOSE v \in SetOf(q) : \A w \in SetOf(q) : RLe(w, v)
MeanR(q) == RDiv(RSum(q), RI(Len(q)))
StdR(q) == LET m == MeanR(q) IN Sqrt(RDiv(RSum([i \in 1..Len(q) |-> RMul(RSub(q[i], m), RSub(q[i], m))]), RI(Len(q) - 1)))
(* the two parameters: literal, or read off the column *)
Lo(e) == IF e.how = "stat" THEN (IF e.f = "normal" THEN MeanR(Column(e)) ELSE MinR(Column(e))) ELSE RP(e.p[1])
Hi(e) == IF e.how = "stat" THEN (IF e.f = "normal" THEN StdR(Column(e)) ELSE MaxR(Column(e))) ELSE RP(e.p[2])
(* bounds of whole numbers may be given in either order *)
IntLo(e) == IF RLt(Hi(e), Lo(e)) THEN Hi(e) ELSE Lo(e)
IntHi(e) == IF RLt(Hi(e), Lo(e)) THEN Lo(e) ELSE Hi(e)
(* parameters for which the distribution does not exist *)
NoStat(e) == (e.how = "stat" /\ Len(Column(e)) < 2)
Degenerate(e) == \/ NoStat(e)
                 \/ (e.f = "random" /\ ~RLt(Lo(e), Hi(e))) \/ (e.f = "int" /\ REq(Lo(e), Hi(e)))
                 \/ (e.f = "normal" /\ RSgn(Hi(e)) <= 0)
                 \/ (e.f = "exp" /\ RSgn(RP(e.p[1])) <= 0)
                 \/ (e.f = "perturb" /\ RSgn(RP(e.p[1])) = 0)
Continuous(e) == e.f \in {"random", "exp", "normal", "perturb", "perturb_pos", "jitter", "add_uniform", "add_gauss"}
Noisy(e) == e.f \in {"perturb", "perturb_pos", "jitter", "add_uniform", "add_gauss"}
Ulp(e, x) == RMul(RAdd(U1, RAbs(x)), TwoPow(IF e.ty = "f32" THEN -22 ELSE -50))
Within(e, i, o) ==
  CASE e.f = "random" -> RIsNum(o) /\ RLe(Lo(e), RP(o)) /\ RLt(RP(o), Hi(e))
    [] e.f = "int" -> IsInt(o) /\ RLe(IntLo(e), RP(o)) /\ RLt(RP(o), IntHi(e))
    [] e.f = "binom" -> IsInt(o) /\ RSgn(RP(o)) >= 0 /\ RLe(RP(o), RP(e.p[1]))
    [] e.f = "exp" -> RIsNum(o) /\ RSgn(RP(o)) >= 0
    [] e.f = "normal" -> RIsNum(o) /\ RLe(RAbs(RSub(RP(o), Lo(e))), RMul(Hi(e), RI(12)))
    [] e.f = "str" -> \* the code points of the string
         RFloor(RP(e.p[1])) <= Len(o) /\ Len(o) <= RFloor(RP(e.p[2])) /\ \A j \in 1..Len(o) : o[j] \in (48..57) \cup (65..90) \cup (97..122)
    [] Noisy(e) ->
         IF ~RIsNum(e.x[i]) THEN o = e.x[i]
         ELSE LET x == RP(e.x[i]) h == RP(e.p[1]) IN
              /\ RIsNum(o)
              /\ LET d == RSub(RP(o), x) u == Ulp(e, x) IN
                 CASE e.f = "perturb_pos" -> RLe(RNeg(u), d) /\ RLe(d, RAdd(h, u))
                   [] e.f \in {"perturb", "add_uniform"} -> RLe(RAbs(d), RAdd(RDiv(h, RI(2)), u))
                   [] OTHER -> RLe(RAbs(d), RAdd(RMul(RI(12), h), u))
Telling(e) == Continuous(e) /\ (IF Noisy(e) THEN Cardinality({i \in 1..Len(e.x) : RIsNum(e.x[i]) /\ RLe(RAbs(RP(e.x[i])), RI(1000))}) >= 3 /\ RLe(RQ(1, 64), RP(e.p[1])) ELSE Len(e.x) >= 3)
(* statistics of a column may be rounded differently when it is laid out differently *)
Same(e, v, w) == IF e.how = "stat" /\ e.f # "int" THEN \A i \in 1..Len(v) : RLe(RAbs(RSub(RP(v[i]), RP(w[i]))), RMul(TwoPow(-40), RAdd(RAbs(Lo(e)), RAbs(Hi(e))))) ELSE v = w
Draw(e, r) ==
  /\ Len(r.v) = Len(e.x) /\ Len(r.w) = Len(e.x) /\ Len(r.u) = Len(e.x)
  /\ \A i \in 1..Len(e.x) : Within(e, i, r.v[i]) /\ Within(e, i, r.w[i]) /\ Within(e, i, r.u[i])
  /\ e.seed # "null" => Same(e, r.v, r.w)                                  \* w: drawn again, in a plain select
  /\ (Telling(e) /\ e.seed = "null") => r.v # r.w
  /\ Telling(e) => r.u # r.v                                       \* u: drawn with another seed
  /\ (Telling(e) /\ ~Noisy(e)) => Cardinality(SetOf(r.v)) = Len(r.v)           \* every row has its own draw
  /\ (Telling(e) /\ Noisy(e)) =>                                   \* and so has its noise: not one shift for all
       LET K == SelectSeq([i \in 1..Len(e.x) |-> i], LAMBDA i : RIsNum(e.x[i]) /\ RLe(RAbs(RP(e.x[i])), RI(1000))) IN
       \E a, b \in 1..Len(K) : ~REq(RSub(RP(r.v[K[a]]), RP(e.x[K[a]])), RSub(RP(r.v[K[b]]), RP(e.x[K[b]]))) /\
           RLt(RMul(RI(8), Ulp(e, RI(1000))), RAbs(RSub(RSub(RP(r.v[K[a]]), RP(e.x[K[a]])), RSub(RP(r.v[K[b]]), RP(e.x[K[b]])))))
Cdf(e, t) ==
  CASE e.f = "random" -> UniformCdf(Lo(e), Hi(e), t)
    [] e.f = "int" -> DiscreteCdf(IntLo(e), IntHi(e), t)
    [] e.f = "binom" -> BinomialCdf(RFloor(RP(e.p[1])), RP(e.p[2]), RFloor(t))
    [] e.f = "exp" -> ExpCdf(RP(e.p[1]), t)
    [] e.f = "normal" -> GaussCdf(Lo(e), Hi(e), t)
    [] e.f = "size" -> DiscreteCdf(RP(e.p[1]), RAdd(RP(e.p[2]), U1), t)              \* of the sizes of random strings
    [] e.f = "chars" -> DiscreteCdf(Z0, RI(62), t)                                   \* of the characters, in the order 0-9 A-Z a-z
    [] e.f \in {"perturb", "add_uniform"} -> UniformCdf(RDiv(RNeg(RP(e.p[1])), RI(2)), RDiv(RP(e.p[1]), RI(2)), t)
    [] e.f = "perturb_pos" -> UniformCdf(Z0, RP(e.p[1]), t)
    [] e.f \in {"jitter", "add_gauss"} -> GaussCdf(Z0, RP(e.p[1]), t)
    [] e.f = "nulls" -> RP(e.p[1])
Dist(e, r) ==     \* of r.n draws r.c[j] are at most e.t[j]; r.d are distinct; and the next draw is no lower with frequency r.up
  /\ r.n >= 1000
  /\ \A j \in 1..Len(e.t) : RLe(RAbs(RSub(RQ(r.c[j], r.n), Cdf(e, RP(e.t[j])))), Spread(r.n))
  /\ (Continuous(e) => r.d * 20 >= r.n * 19)
  /\ (Continuous(e) => r.up * 20 >= r.n * 9 /\ r.up * 20 <= r.n * 11)
Nulls(e, r) ==
  /\ Len(r.v) = Len(e.x) /\ \A i \in 1..Len(e.x) : r.v[i] \in {e.x[i], "null"}
  /\ e.seed # "null" => r.v = r.w
Accept(e) ==
  IF Raised(e) THEN CASE e.op = "comb" -> CombRefuses(e) [] e.op = "draw" -> Degenerate(e) /\ LeftOpen(e) [] OTHER -> FALSE
  ELSE LET r == e.res IN
       CASE e.op = "comb" -> ~CombRefuses(e) /\ Comb(e, r.o) [] e.op = "prod" -> Prod(e, r.o)
         [] e.op = "draw" -> IF Degenerate(e) THEN LeftOpen(e) ELSE Draw(e, r)
         [] e.op = "dist" -> Dist(e, r) [] e.op = "nulls" -> Nulls(e, r)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
