------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Transform pipelines.  A frame is a sequence of named columns; a         *)
(* blueprint is a sequence of steps.  Fitting runs the steps over the      *)
(* training frame: a step that learns turns into rules whose parameters    *)
(* come from the training frame as the previous steps left it; the other   *)
(* steps are kept as they are.  A pipeline is the resulting sequence of    *)
(* items, and transforming a frame applies them, in order and nothing else.*)
(*                                                                         *)
(* A column is [n, k, x, v]: name, kind, whether its values are exact      *)
(* (not the result of rounded arithmetic), values.                         *)
(***************************************************************************)
EXTENDS Transform
L == INSTANCE LinAlg
CONSTANT Before(_, _)            \* the order of strings

SV(s) == [k |-> "str", s |-> s]
BV(b) == [k |-> "bool", b |-> b]
Rnd(x) == RRnd(x, 160)
Names(F) == [i \in 1..Len(F) |-> F[i].n]
NameSet(F) == {F[i].n : i \in 1..Len(F)}
Height(F) == IF F = <<>> THEN 0 ELSE Len(F[1].v)
Get(F, n) == F[CHOOSE i \in 1..Len(F) : F[i].n = n]
(* columns C take the place of those of the same name, or go to the end *)
RECURSIVE Put(_, _)
Put(F, C) == IF C = <<>> THEN F
             ELSE LET c == Head(C) IN
                  Put(IF c.n \in NameSet(F) THEN [i \in 1..Len(F) |-> IF F[i].n = c.n THEN c ELSE F[i]] ELSE Append(F, c), Tail(C))
TakeRows(F, I) == Eager([j \in 1..Len(F) |-> [F[j] EXCEPT !.v = [i \in 1..Len(I) |-> F[j].v[I[i]]]]])
SetOf(q) == {q[i] : i \in 1..Len(q)}
Without(q, N) == SelectSeq(q, LAMBDA x : x \notin N)
(* which rows a filter keeps depends on how a computation is rounded, or on a value left open *)
Undecided == <<[n |-> "?", k |-> "int", x |-> TRUE, v |-> <<>>]>>
IsUndecided(F) == F # <<>> /\ F[1].n = "?"

(***************************************************************************)
(* Which columns a step is about.                                          *)
(***************************************************************************)
Floats == {"float", "f32", "f64", "any"}        \* "any": the specification does not say
Chosen(F, sel) ==
  LET by(K) == Names(SelectSeq(F, LAMBDA c : c.k \in K)) IN
  CASE sel.s = "names" -> sel.names
    [] sel.s = "numeric" -> by({"int"} \cup Floats)
    [] sel.s = "integer" -> by({"int"})
    [] sel.s = "float" -> by(Floats)
    [] sel.s = "string" -> by({"str"})
    [] sel.s = "boolean" -> by({"bool"})
    [] sel.s = "all" -> Names(F)

(***************************************************************************)
(* Expressions of the columns of a frame, row by row; "mean" is over the   *)
(* frame at hand.                                                          *)
(***************************************************************************)
Arith == {"add", "sub", "mul"}
RECURSIVE KindE(_, _)
KindE(F, e) == CASE e.op = "col" -> Get(F, e.n).k
                 [] e.op = "lit" -> IF IsInt(RP(e.w)) THEN "int" ELSE "float"
                 [] e.op \in Arith -> IF "any" \in {KindE(F, e.a), KindE(F, e.b)} THEN "any" ELSE IF KindE(F, e.a) = "int" /\ KindE(F, e.b) = "int" THEN "int" ELSE "float"
                 [] e.op \in {"div", "mean"} -> "float"
                 [] e.op = "fill" -> IF "any" \in {KindE(F, e.a), KindE(F, e.b)} THEN "any" ELSE IF KindE(F, e.a) = "int" /\ KindE(F, e.b) # "int" THEN "float" ELSE KindE(F, e.a)
                 [] OTHER -> "bool"
RECURSIVE ExactE(_, _)
ExactE(F, e) == CASE e.op = "col" -> Get(F, e.n).x
                  [] e.op \in Arith -> KindE(F, e) = "int" /\ ExactE(F, e.a) /\ ExactE(F, e.b)
                  [] e.op \in {"div", "mean"} -> FALSE
                  [] e.op = "fill" -> ExactE(F, e.a)
                  [] OTHER -> TRUE
Values(F, n) == SelectSeq(Get(F, n).v, LAMBDA w : w.k # "null")
AllNums(q) == \A i \in 1..Len(q) : IsNum(q[i])
NumsOf(q) == Eager([i \in 1..Len(q) |-> q[i].v])
Level(w) == CASE w.k = "-inf" -> 0 [] w.k = "num" -> 1 [] w.k = "inf" -> 2 [] w.k = "nan" -> 3       \* nan is above all numbers
Below(a, b) == Level(a) < Level(b) \/ (IsNum(a) /\ IsNum(b) /\ RLt(a.v, b.v))
Touching(a, b) == IsNum(a) /\ IsNum(b) /\ RLe(RAbs(RSub(a.v, b.v)), RMul(TwoPow(-20), RAdd(U1, RAbs(a.v))))
Is(w, b) == w.k = "bool" /\ w.b = b
RECURSIVE EvalE(_, _, _)
EvalE(F, i, e) ==
  LET a == EvalE(F, i, e.a) b == EvalE(F, i, e.b) IN
  CASE e.op = "col" -> Get(F, e.n).v[i]
    [] e.op = "lit" -> VR(RP(e.w))
    [] e.op = "str" -> SV(e.w)
    [] e.op = "mean" -> LET q == Values(F, e.n) IN IF q = <<>> THEN Null ELSE IF AllNums(q) THEN VR(Rnd(Mean(NumsOf(q)))) ELSE Open
    [] e.op \in Arith \cup {"div"} ->
         IF "null" \in {a.k, b.k} THEN Null
         ELSE IF ~IsNum(a) \/ ~IsNum(b) THEN Open
         ELSE CASE e.op = "add" -> VR(RAdd(a.v, b.v)) [] e.op = "sub" -> VR(RSub(a.v, b.v)) [] e.op = "mul" -> VR(RMul(a.v, b.v)) [] OTHER -> IF RSgn(b.v) = 0 THEN Open ELSE VR(Rnd(RDiv(a.v, b.v)))
    [] e.op = "fill" -> IF a.k = "null" THEN b ELSE a
    [] e.op = "isnull" -> IF a.k = "open" THEN Open ELSE BV(a.k = "null")
    [] e.op = "not" -> IF a.k = "bool" THEN BV(~a.b) ELSE a
    [] e.op = "and" -> IF Is(a, FALSE) \/ Is(b, FALSE) THEN BV(FALSE) ELSE IF "open" \in {a.k, b.k} THEN Open ELSE IF "null" \in {a.k, b.k} THEN Null ELSE BV(TRUE)
    [] e.op = "or" -> IF Is(a, TRUE) \/ Is(b, TRUE) THEN BV(TRUE) ELSE IF "open" \in {a.k, b.k} THEN Open ELSE IF "null" \in {a.k, b.k} THEN Null ELSE BV(FALSE)
    [] e.op \in {"lt", "le", "gt", "ge", "eq"} ->
         IF "null" \in {a.k, b.k} THEN Null
         ELSE IF "open" \in {a.k, b.k} THEN Open
         ELSE IF a.k = "str" THEN BV(a.s = b.s)
         ELSE IF Touching(a, b) /\ ~(ExactE(F, e.a) /\ ExactE(F, e.b)) THEN Open
         ELSE CASE e.op = "lt" -> BV(Below(a, b)) [] e.op = "le" -> BV(~Below(b, a)) [] e.op = "gt" -> BV(Below(b, a)) [] e.op = "ge" -> BV(~Below(a, b)) [] OTHER -> BV(~Below(a, b) /\ ~Below(b, a))
ColE(F, n, e) == [n |-> n, k |-> KindE(F, e), x |-> ExactE(F, e), v |-> Eager([i \in 1..Height(F) |-> EvalE(F, i, e)])]
Filtered(F, e) == LET w == Eager([i \in 1..Height(F) |-> EvalE(F, i, e)]) IN
                  IF \E i \in 1..Height(F) : w[i].k = "open" THEN Undecided ELSE TakeRows(F, SelectSeq([i \in 1..Height(F) |-> i], LAMBDA i : Is(w[i], TRUE)))

(***************************************************************************)
(* Rules: the new value of a cell from the old one and learned parameters. *)
(***************************************************************************)
Affine(w, a, d) == IF w.k = "null" THEN Null ELSE IF "open" \in {w.k, a.k, d.k} \/ ~IsNum(w) THEN Open ELSE LET q == VQuo(VSub(w, a), d) IN IF IsNum(q) THEN VR(Rnd(q.v)) ELSE q
Clipped(w, lo, hi) == IF w.k = "null" THEN Null ELSE IF "open" \in {w.k, lo.k, hi.k} THEN Open ELSE IF ~IsNum(w) THEN Open ELSE VR(Clip(w.v, lo.v, hi.v))
Looked(w, tab, dflt) == LET I == {i \in 1..Len(tab) : tab[i].s = (IF w.k = "str" THEN w.s ELSE "")} IN IF w.k = "open" THEN Open ELSE IF w.k = "null" \/ I = {} THEN dflt ELSE tab[CHOOSE i \in I : TRUE].w
RankOf(w, ranking) == IF w.k # "str" THEN 0 ELSE IF \E j \in 1..Len(ranking) : ranking[j] = w.s THEN CHOOSE j \in 1..Len(ranking) : ranking[j] = w.s ELSE 0
Linear(F, i, feats, coefs, bias) ==
  LET w == Eager([j \in 1..Len(feats) |-> Get(F, feats[j]).v[i]]) IN
  IF ~AllNums(w) \/ ~AllNums(coefs) THEN Open ELSE VR(Rnd(RAdd(bias, RSum([j \in 1..Len(w) |-> RMul(w[j].v, coefs[j].v)]))))
NewCol(F, r) ==
  LET c == Get(F, r.n) new(k, x, f(_)) == [n |-> r.out, k |-> k, x |-> x, v |-> Eager([i \in 1..Height(F) |-> f(i)])] IN
  CASE r.t = "fill" -> new(IF r.w.k = "open" THEN "any" ELSE r.k, c.x, LAMBDA i : IF c.v[i].k = "null" THEN r.w ELSE c.v[i])
    [] r.t = "cond" -> new(IF r.w.k = "open" THEN "any" ELSE r.k, c.x, LAMBDA i : LET g == EvalE(F, i, r.e) IN IF g.k = "open" THEN Open ELSE IF Is(g, TRUE) THEN r.w ELSE c.v[i])
    [] r.t = "affine" -> new(IF "open" \in {r.a.k, r.d.k} THEN "any" ELSE "float", FALSE, LAMBDA i : Affine(c.v[i], r.a, r.d))
    [] r.t = "clip" -> new(c.k, c.x, LAMBDA i : Clipped(c.v[i], r.lo, r.hi))
    [] r.t = "is" -> new("int", TRUE, LAMBDA i : IF c.v[i].k = "open" THEN Open ELSE VI(IF c.v[i].k = "str" /\ c.v[i].s = r.s THEN 1 ELSE 0))
    [] r.t = "table" -> new("float", FALSE, LAMBDA i : Looked(c.v[i], r.tab, r.w))
    [] r.t = "rank" -> new("int", TRUE, LAMBDA i : IF c.v[i].k = "open" THEN Open ELSE LET j == RankOf(c.v[i], r.ranking) IN VI(IF j = 0 THEN -1 ELSE IF j >= r.i THEN 1 ELSE 0))
    [] r.t = "linear" -> new(IF r.coefs # <<>> /\ r.coefs[1].k = "open" THEN "any" ELSE "float", c.x, LAMBDA i : IF c.v[i].k = "null" THEN Linear(F, i, r.feats, r.coefs, r.bias) ELSE c.v[i])
    [] r.t = "expr" -> ColE(F, r.out, r.e)
    [] r.t = "kind" -> new(r.k, c.x, LAMBDA i : IF c.v[i].k = "bool" THEN VI(IF c.v[i].b THEN 1 ELSE 0) ELSE c.v[i])
    [] r.t = "nonan" -> new(c.k, c.x, LAMBDA i : IF c.v[i].k = "nan" THEN Null ELSE c.v[i])
ApplyRules(F, rules) == Put(F, Eager([i \in 1..Len(rules) |-> NewCol(F, rules[i])]))

(***************************************************************************)
(* What is learned from a column.  Values left open, and statistics of     *)
(* columns with nan or infinities, are not prescribed; ties of the mode    *)
(* and quantiles on a boundary have several answers.                       *)
(***************************************************************************)
Mid(s) == LET S == Sorted(s) n == Len(s) IN IF n % 2 = 1 THEN S[(n + 1) \div 2] ELSE RDiv(RAdd(S[n \div 2], S[(n \div 2) + 1]), RI(2))
Same(a, b) == IF a.k = "num" THEN b.k = "num" /\ REq(a.v, b.v) ELSE a = b
Modes(q) == LET times(i) == Cardinality({j \in 1..Len(q) : Same(q[i], q[j])}) IN {q[i] : i \in {j \in 1..Len(q) : \A h \in 1..Len(q) : times(h) <= times(j)}}
Fills(q, m, exact) ==
  IF q = <<>> \/ \E i \in 1..Len(q) : q[i].k = "open" THEN {Open}
  ELSE IF m = "mode" THEN (IF exact THEN Modes(q) ELSE {Open})
  ELSE IF ~AllNums(q) THEN {Open}
  ELSE IF m = "mean" THEN {VR(Rnd(Mean(NumsOf(q))))} ELSE {VR(Mid(NumsOf(q)))}
FillKind(k, m) == IF m = "mode" \/ k \notin ({"int"} \cup Floats) THEN k ELSE "float"
Aff(n, a, d) == [t |-> "affine", n |-> n, out |-> n, a |-> a, d |-> d]
(* a spread that rounding may make different from zero, or from what it is *)
Spread(c, d) == IF RLe(RAbs(d), TwoPow(-16)) /\ ~(c.x /\ RSgn(d) = 0) THEN Open ELSE VR(d)
ScaleRules(F, n, m) ==
  LET c == Get(F, n) q == Values(F, n) s == NumsOf(q) IN
  IF q = <<>> \/ ~AllNums(q) THEN {Aff(n, Open, Open)}
  ELSE CASE m = "center" -> {Aff(n, VR(Rnd(Mean(s))), VI(1))}
         [] m = "standard" -> {LET d == Rnd(Sqrt(Var(s, 0))) IN Aff(n, VR(Rnd(Mean(s))), IF c.k = "int" \/ RSgn(Var(s, 0)) # 0 THEN Spread(c, IF RSgn(Var(s, 0)) = 0 THEN Z0 ELSE d) ELSE Open)}
         [] m = "min_max" -> {Aff(n, VR(MinOf(s)), Spread(c, RSub(MaxOf(s), MinOf(s))))}
         [] m = "abs_max" -> {Aff(n, VI(0), Spread(c, MaxOf(Eager([i \in 1..Len(s) |-> RAbs(s[i])]))))}
RobustRules(F, n, lo, hi) ==
  LET c == Get(F, n) q == Values(F, n) s == NumsOf(q) IN
  IF q = <<>> \/ ~AllNums(q) THEN {Aff(n, Open, Open)}
  ELSE {Aff(n, VR(a), Spread(c, RSub(b, a))) : a \in Quantiles(s, lo, "midpoint"), b \in Quantiles(s, hi, "midpoint")}
WinsorRules(F, n, lo, hi, m) ==
  LET q == Values(F, n) s == NumsOf(q) r(a, b) == [t |-> "clip", n |-> n, out |-> n, lo |-> a, hi |-> b] IN
  IF q = <<>> \/ ~AllNums(q) THEN {r(Open, Open)}
  ELSE {r(VR(a), VR(b)) : a \in Quantiles(s, lo, m), b \in Quantiles(s, hi, m)}
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Before(x, y) IN <<m>> \o InOrder(S \ {m})
Cats(F, n) == InOrder({w.s : w \in {u \in SetOf(Get(F, n).v) : u.k = "str"}})
Encodable(F, sel) == SelectSeq(sel, LAMBDA n : Get(F, n).k \in {"str", "cat"})
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
HotRules(F, names, sep, first) ==
  Flat([j \in 1..Len(names) |-> LET u == Cats(F, names[j]) a == IF first THEN 2 ELSE 1 IN
    IF Len(u) < 2 THEN <<>> ELSE [i \in 1..(Len(u) - a + 1) |-> [t |-> "is", n |-> names[j], out |-> names[j] \o sep \o u[i + a - 1], s |-> u[i + a - 1]]]])
RankRules(n, ranking) == [i \in 1..(Len(ranking) - 1) |-> [t |-> "rank", n |-> n, out |-> n \o ">=" \o ranking[i + 1], ranking |-> ranking, i |-> i + 1]]
(* the encoding of each category of column n by the target's values *)
Table(F, n, y, s) ==
  LET t == Get(F, y).v x == Get(F, n).v
      told(i) == s.op # "tenc" \/ t[i].k # "null"        \* a row without a target says nothing of its category
      C == SelectSeq(Cats(F, n), LAMBDA c : \E i \in 1..Len(x) : x[i].k = "str" /\ x[i].s = c /\ told(i))
      I(c) == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : x[i].k = "str" /\ x[i].s = c /\ told(i))
      T(c) == Eager([j \in 1..Len(I(c)) |-> t[I(c)[j]].v])
      K == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : x[i].k = "str")
      H == SelectSeq(t, LAMBDA w : w.k # "null")
      ones(J) == Cardinality({j \in 1..Len(J) : RSgn(t[J[j]].v) = 1}) zeros(J) == Len(J) - ones(J)
      w(c) == CASE s.op = "tenc" -> Encoded(RI(Len(I(c))), Mean(T(c)), Mean(NumsOf(H)), RP(s.leaf), RP(s.smooth))
                [] s.op = "woe" -> Woe(RI(ones(I(c))), RI(zeros(I(c))), RI(ones(K)), RI(zeros(K)))
                [] s.op = "iv" -> Iv(RI(ones(I(c))), RI(zeros(I(c))), RI(ones(K)), RI(zeros(K)))
      ok == IF s.op = "tenc" THEN AllNums(H) ELSE AllNums(t) /\ \A i \in 1..Len(t) : RSgn(t[i].v) = 0 \/ REq(t[i].v, U1) IN
  Eager([i \in 1..Len(C) |-> [s |-> C[i], w |-> IF ok THEN VR(Rnd(w(C[i]))) ELSE Open]])
Default(F, y, d) == CASE d \in {"null", "none"} -> Null [] d = "zero" -> VI(0)
                      [] d = "mean" -> LET q == Values(F, y) IN IF q = <<>> \/ ~AllNums(q) THEN Open ELSE VR(Rnd(Mean(NumsOf(q))))
                      [] OTHER -> VR(RP(d))
LinRule(F, feats, y, bias) ==
  LET t == Get(F, y).v rows == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i].k # "null" /\ \A f \in SetOf(feats) : Get(F, f).v[i].k # "null")
      fine == \A j \in 1..Len(rows) : IsNum(t[rows[j]]) /\ \A f \in SetOf(feats) : IsNum(Get(F, f).v[rows[j]])
      p == Len(feats) + (IF bias THEN 1 ELSE 0)
      X == Eager([j \in 1..Len(rows) |-> [i \in 1..p |-> IF i <= Len(feats) THEN Get(F, feats[i]).v[rows[j]].v ELSE U1]])
      Y == Eager([j \in 1..Len(rows) |-> t[rows[j]].v]) w == [j \in 1..Len(rows) |-> U1]
      G == L!Gram(X, w) V == L!Inverse(G) b == L!MatVec(V, L!GramVec(X, w, Y))
      r(co, c0) == [t |-> "linear", n |-> y, out |-> y, feats |-> feats, coefs |-> co, bias |-> c0] IN
  IF feats = <<>> /\ (~fine \/ rows = <<>> \/ ~bias) THEN [t |-> "fill", n |-> y, out |-> y, k |-> "any", w |-> Open]
  ELSE IF ~fine \/ Len(rows) < p THEN r([i \in 1..Len(feats) |-> Open], Z0)
  ELSE IF V = <<>> THEN r([i \in 1..Len(feats) |-> Open], Z0)
  ELSE IF RLe(RI(65536), RMul(L!Norm(G), L!Norm(V))) THEN r([i \in 1..Len(feats) |-> Open], Z0)
  ELSE r(Eager([i \in 1..Len(feats) |-> VR(Rnd(b[i]))]), IF bias THEN b[p] ELSE Z0)
(* combinations with repetition of d columns, by position *)
RECURSIVE Picks(_, _, _)
Picks(a, n, d) == IF d = 0 THEN << <<>> >> ELSE Flat([i \in 1..(n - a + 1) |-> LET q == Picks(a + i - 1, n, d - 1) IN [j \in 1..Len(q) |-> <<a + i - 1>> \o q[j]]])
RECURSIVE JoinNames(_), Product(_)
JoinNames(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "*" \o JoinNames(Tail(q))
Product(q) == IF Len(q) = 1 THEN [op |-> "col", n |-> q[1]] ELSE [op |-> "mul", a |-> [op |-> "col", n |-> q[1]], b |-> Product(Tail(q))]
PolyRules(names, d, io) ==
  LET P == Picks(1, Len(names), d) Q == SelectSeq(P, LAMBDA q : ~io \/ Cardinality(SetOf(q)) > 1) IN
  Eager([i \in 1..Len(Q) |-> LET q == [j \in 1..d |-> names[Q[i][j]]] IN [t |-> "expr", n |-> q[1], out |-> JoinNames(q), e |-> Product(q)]])

(***************************************************************************)
(* Fitting a step to frame F, under the blueprint's options o (target and  *)
(* columns excluded from steps that learn): the possible items.            *)
(***************************************************************************)
RECURSIVE Alternatives(_)
Alternatives(q) == IF q = <<>> THEN {<<>>} ELSE {<<a>> \o r : a \in Head(q), r \in Alternatives(Tail(q))}
Learned(rules) == [learned |-> TRUE, rules |-> rules]
Given(s) == [learned |-> FALSE, step |-> s]
DropStep(names) == [op |-> "drop", sel |-> [s |-> "names", names |-> names], given |-> TRUE]
Target(s, o) == IF s.target = "" THEN o.target ELSE s.target
Learning == {"impute", "cimpute", "linear", "scale", "robust", "center", "winsor", "onehot", "tenc", "woe", "iv", "fitfunc"}
Mine(F, s, o) == Without(Chosen(F, s.sel), SetOf(o.exclude))
RulesSets(F, s, o) ==      \* a sequence of sets of alternatives
  LET m == IF "sel" \in DOMAIN s THEN Mine(F, s, o) ELSE <<>> n == Len(m) IN
  CASE s.op = "impute" -> [i \in 1..n |-> {[t |-> "fill", n |-> m[i], out |-> m[i], k |-> FillKind(Get(F, m[i]).k, s.m), w |-> w] : w \in Fills(Values(F, m[i]), s.m, Get(F, m[i]).x)}]
    [] s.op = "cimpute" -> [i \in 1..Len(s.rules) |->
         LET c == Get(F, s.rules[i].n) g == Eager([j \in 1..Height(F) |-> EvalE(F, j, s.rules[i].e)])
             I == SelectSeq([j \in 1..Height(F) |-> j], LAMBDA j : Is(g[j], FALSE) /\ c.v[j].k # "null") q == [j \in 1..Len(I) |-> c.v[I[j]]] IN
         {[t |-> "cond", n |-> c.n, out |-> c.n, k |-> FillKind(c.k, s.m), e |-> s.rules[i].e, w |-> w] :
            w \in IF \E j \in 1..Height(F) : g[j].k = "open" THEN {Open} ELSE Fills(q, s.m, c.x)}]
    [] s.op = "linear" -> << {LinRule(F, m, Target(s, o), s.bias)} >>
    [] s.op = "scale" -> [i \in 1..n |-> ScaleRules(F, m[i], s.m)]
    [] s.op = "center" -> [i \in 1..n |-> ScaleRules(F, m[i], "center")]
    [] s.op = "robust" -> [i \in 1..n |-> RobustRules(F, m[i], RP(s.lo), RP(s.hi))]
    [] s.op = "winsor" -> [i \in 1..n |-> WinsorRules(F, m[i], RP(s.lo), RP(s.hi), s.m)]
    [] s.op = "onehot" -> LET r == HotRules(F, Encodable(F, m), s.sep, s.first) IN [i \in 1..Len(r) |-> {r[i]}]
    [] s.op \in {"tenc", "woe", "iv"} -> LET c == Encodable(F, m) y == Target(s, o) IN
         [i \in 1..Len(c) |-> {[t |-> "table", n |-> c[i], out |-> c[i], tab |-> Table(F, c[i], y, s), w |-> Default(F, y, s.default)]}]
    [] s.op = "fitfunc" -> [i \in 1..n |-> LET q == Values(F, m[i]) IN {Aff(m[i], IF q = <<>> \/ ~AllNums(q) THEN Open ELSE VR(RMul(RP(s.f), MaxOf(NumsOf(q)))), VI(1))}]
Items(F, s, o) ==
  IF s.op \in Learning
  THEN {<<Learned(Eager(r))>> \o (IF s.op = "onehot" /\ s.drop THEN <<Given(DropStep(Mine(F, s, o)))>> ELSE <<>>) : r \in Alternatives(Eager(RulesSets(F, s, o)))}
  ELSE IF s.op = "drop" /\ s.sel.s # "names" THEN {<<Given([s EXCEPT !.ex = o.exclude])>>}
  ELSE {<<Given(s)>>}

(* what a step that does not learn does to the frame at hand *)
Expr(n, e) == [t |-> "expr", n |-> n, out |-> n, e |-> e]
Step(F, s) ==
  LET kinds(K, k) == LET q == SelectSeq(F, LAMBDA c : c.k \in K) IN [i \in 1..Len(q) |-> [t |-> "kind", n |-> q[i].n, out |-> q[i].n, k |-> k]]
      exprs(q) == [i \in 1..Len(q) |-> ColE(F, q[i].n, q[i].e)]
      minus(G, N) == SelectSeq(G, LAMBDA c : c.n \notin N) IN
  CASE s.op = "cast_bools" -> ApplyRules(F, kinds({"bool"}, "int"))
    [] s.op = "int_to_float" -> ApplyRules(F, kinds({"int"}, IF s.f32 THEN "f32" ELSE "f64"))
    [] s.op = "nan_to_null" -> LET q == SelectSeq(F, LAMBDA c : c.k \in Floats) IN ApplyRules(F, [i \in 1..Len(q) |-> [t |-> "nonan", n |-> q[i].n, out |-> q[i].n]])
    [] s.op = "select" -> LET q == Chosen(F, s.sel) IN [i \in 1..Len(q) |-> Get(F, q[i])]
    [] s.op = "drop" -> minus(F, SetOf(Chosen(F, s.sel)) \ (IF "ex" \in DOMAIN s THEN SetOf(s.ex) ELSE {}))
    [] s.op = "rename" -> LET old == {s.pairs[i][1] : i \in 1..Len(s.pairs)} IN
                          minus(F, old) \o [i \in 1..Len(s.pairs) |-> [Get(F, s.pairs[i][1]) EXCEPT !.n = s.pairs[i][2]]]
    [] s.op = "poly" -> ApplyRules(F, PolyRules(s.names, s.degree, s.io))
    [] s.op = "rank" -> LET G == ApplyRules(F, RankRules(s.n, s.ranking)) IN IF s.drop THEN minus(G, {s.n}) ELSE G
    [] s.op = "append" -> IF s.select THEN exprs(s.exprs) ELSE Put(F, exprs(s.exprs))
    [] s.op = "filter" -> Filtered(F, s.e)
    [] s.op = "sql" -> LET G == IF s.where = <<>> THEN F ELSE Filtered(F, s.where[1]) IN
                       IF IsUndecided(G) THEN G ELSE (IF s.star THEN G ELSE <<>>) \o [i \in 1..Len(s.items) |-> ColE(G, s.items[i].n, s.items[i].e)]
Apply(F, it) == IF IsUndecided(F) THEN F ELSE IF it.learned THEN ApplyRules(F, it.rules) ELSE Step(F, it.step)
RECURSIVE ApplyAll(_, _)
ApplyAll(F, its) == IF its = <<>> THEN F ELSE ApplyAll(Eager(Apply(F, Head(its))), Tail(its))

(***************************************************************************)
(* A step that cannot be fitted is refused.                                *)
(***************************************************************************)
RECURSIVE ColsE(_)
ColsE(e) == CASE e.op \in {"col", "mean"} -> {e.n} [] e.op \in {"lit", "str"} -> {} [] e.op \in {"not", "isnull"} -> ColsE(e.a) [] OTHER -> ColsE(e.a) \cup ColsE(e.b)
ColsOf(q) == UNION {ColsE(q[i].e) : i \in 1..Len(q)}
Needs(s, o) == (IF "sel" \in DOMAIN s THEN (IF s.sel.s = "names" THEN SetOf(s.sel.names) ELSE {}) ELSE {})
          \cup (IF s.op \in {"linear", "tenc", "woe", "iv"} THEN {Target(s, o)} ELSE {})
          \cup (CASE s.op = "cimpute" -> {s.rules[i].n : i \in 1..Len(s.rules)} \cup ColsOf(s.rules) [] s.op = "rename" -> {s.pairs[i][1] : i \in 1..Len(s.pairs)}
                  [] s.op = "poly" -> SetOf(s.names) [] s.op = "rank" -> {s.n} [] s.op = "append" -> ColsOf(s.exprs) [] s.op = "filter" -> ColsE(s.e)
                  [] s.op = "sql" -> ColsOf(s.items) \cup (IF s.where = <<>> THEN {} ELSE ColsE(s.where[1])) [] OTHER -> {})
BadRange(s) == LET a == RP(s.lo) b == RP(s.hi) IN RSgn(a) < 0 \/ RLt(U1, b) \/ ~RLt(a, b)
(* refused by construction: wrong parameters, or no target *)
Invalid(s, o) == CASE s.op \in {"robust", "winsor"} -> BadRange(s)
                   [] s.op = "rank" -> Len(s.ranking) < 2
                   [] s.op = "poly" -> s.degree < 2
                   [] s.op \in {"linear", "tenc", "woe", "iv"} -> Target(s, o) = ""
                   [] s.op \in {"impute", "cimpute"} -> s.m \notin {"mean", "median", "mode"}
                   [] s.op = "scale" -> s.m \notin {"standard", "min_max", "abs_max"}
                   [] OTHER -> FALSE
MustRefuse(F, s, o) == Invalid(s, o) \/ ~((Needs(s, o) \ (IF s.op = "drop" THEN Needs(s, o) ELSE {})) \subseteq NameSet(F))
(* nothing to encode *)
MayRefuse(F, s, o) == \/ (s.op = "onehot" /\ RulesSets(F, s, o) = <<>>)
                      \/ (s.op \in {"tenc", "woe", "iv"} /\ Encodable(F, Mine(F, s, o)) = <<>>)
                      \/ (s.op \in {"impute", "cimpute"} /\ \E j \in 1..Len(RulesSets(F, s, o)) : \E r \in RulesSets(F, s, o)[j] : r.w.k = "open")
                      \/ (s.op \in {"scale", "center", "robust", "winsor", "fitfunc"} /\ \E i \in 1..Len(Mine(F, s, o)) : Values(F, Mine(F, s, o)[i]) = <<>>)
                      \/ (s.op = "linear" /\ \E r \in RulesSets(F, s, o)[1] : IF r.t = "fill" THEN TRUE ELSE r.coefs # <<>> /\ r.coefs[1].k = "open")
=============================================================================
