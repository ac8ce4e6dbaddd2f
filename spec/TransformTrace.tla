--------------------------- MODULE TransformTrace ---------------------------
(* Recorded numeric transforms against their definitions. *)
EXTENDS TraceCore, Transform
VARIABLES ev, verdict
Num(s) == Eager([i \in 1..Len(s) |-> RP(s[i])])
In(s) == RFloor(RP(s))
F32 == {"f32"}
Prec(e) == IF e.ty \in F32 THEN 24 ELSE 53
Low(e) == IF e.ty \in F32 THEN -126 ELSE -1022
(* the column's number as the function sees it *)
Seen(e, x) == IF e.ty \in F32 THEN RF32(x) ELSE x
RT(e) == IF e.ty \in F32 THEN TwoPow(-16) ELSE TwoPow(-36)
AT(e) == IF e.ty \in F32 THEN TwoPow(-20) ELSE TwoPow(-44)

(* functions of one value: what the answer is for the observed argument o *)
Edge(o, a, b, c) == CASE o = "nan" -> NaN [] o = "inf" -> a [] o = "-inf" -> b [] OTHER -> c
Big(e) == TwoPow(IF e.ty \in F32 THEN 128 ELSE 1024)
Sat(e, w) == IF RLe(Big(e), w) THEN Inf ELSE IF RLe(w, RNeg(Big(e))) THEN NegInf ELSE VR(w)
F1(e, o) ==
  LET x == Seen(e, RP(o)) f == e.f IN
  CASE f = "expit" -> Edge(o, VI(1), VI(0), IF RIsNum(o) THEN VR(ExpitF(x)) ELSE NaN)
    [] f = "logit" -> Edge(o, NaN, NaN, IF ~RIsNum(o) THEN NaN ELSE IF RSgn(x) < 0 \/ RLt(U1, x) THEN NaN ELSE IF RSgn(x) = 0 THEN NegInf ELSE IF REq(x, U1) THEN Inf ELSE VR(LogitF(x)))
    [] f = "exp2" -> Edge(o, Inf, VI(0), IF RLe(RI(1100), x) THEN Inf ELSE Sat(e, Exp2F(x)))
    [] f = "gamma" -> Edge(o, Inf, NaN, IF RSgn(x) = 0 THEN Inf ELSE IF RSgn(x) < 0 THEN (IF IsInt(x) THEN NaN ELSE Open) ELSE IF RLe(RI(172), x) THEN Inf ELSE Sat(e, GammaF(x)))
    [] f = "digamma" -> Edge(o, Inf, NaN, IF RSgn(x) <= 0 /\ IsInt(x) THEN Open ELSE VR(Digamma(x)))
    [] f = "trunc" -> Edge(o, Inf, NegInf, VR(TruncBig(RP(o))))
    [] f = "fract" -> Edge(o, Open, Open, VR(RSub(x, TruncBig(x))))
    [] f = "sinc" -> Edge(o, Open, Open, VR(SincF(RP(o))))
    [] f = "next_up" -> Edge(o, Inf, VR(RNeg(MaxFloat(Prec(e), Low(e)))), LET w == NextUp(x, Prec(e), Low(e)) IN IF RLt(MaxFloat(Prec(e), Low(e)), w) THEN Inf ELSE VR(w))
    [] f = "next_down" -> Edge(o, VR(MaxFloat(Prec(e), Low(e))), NegInf, LET w == NextDown(x, Prec(e), Low(e)) IN IF RLt(w, RNeg(MaxFloat(Prec(e), Low(e)))) THEN NegInf ELSE VR(w))
Exact == {"trunc", "fract", "next_up", "next_down"}
Tol1(e, o) ==       \* the answer may be off by the rounding of the argument, scaled by the function's slope
  IF ~RIsNum(o) THEN Z0
  ELSE LET x == RAbs(RP(o)) IN
       CASE e.f \in Exact -> Z0
         [] e.f = "exp2" \/ e.f = "gamma" -> RMul(RT(e), RAdd(U1, RMul(x, RI(8))))
         [] OTHER -> RT(e)
Abs1(e, o) == CASE e.f \in Exact -> Z0 [] e.f = "exp2" -> TwoPow(IF e.ty \in F32 THEN -126 ELSE -1022) [] e.f = "gamma" -> Z0
                [] e.f = "digamma" -> IF RIsNum(o) /\ RSgn(RP(o)) < 0 THEN RMul(TwoPow(-30), RAdd(U1, Square(Cot(RMul(Pi, RP(o)))))) ELSE TwoPow(-34)
                [] e.f = "sinc" -> IF e.ty = "f32" THEN TwoPow(-18) ELSE TwoPow(-40) [] OTHER -> AT(e)
Map1(e, out) ==
  /\ Len(out) = Len(e.x)
  /\ \A i \in 1..Len(e.x) : LET o == e.x[i] IN
       IF o = "null" THEN out[i] = "null"
       ELSE IF e.f = "digamma" /\ o = "-inf" THEN TRUE
       ELSE LET w == F1(e, o) IN w.k = "open" \/ VOk(out[i], w, Abs1(e, o), Tol1(e, o))

XlogY(x, y) ==      \* of two observed numbers
  IF x = "nan" \/ y = "nan" THEN NaN
  ELSE IF x \in {"inf", "-inf"} \/ y \in {"inf", "-inf"} THEN Open
  ELSE IF RSgn(RP(x)) = 0 THEN VI(0)
  ELSE IF RSgn(RP(y)) < 0 THEN NaN
  ELSE IF RSgn(RP(y)) = 0 THEN (IF RSgn(RP(x)) > 0 THEN NegInf ELSE Inf)
  ELSE VR(RMul(RP(x), Ln(RP(y))))
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Map2(e, out) ==
  /\ Len(out) = Len(e.x)
  /\ \A i \in 1..Len(e.x) :
       LET x == e.x[i] y == At(e.y, i) IN
       IF x = "null" \/ y = "null" THEN out[i] = "null"
       ELSE CASE e.f = "xlogy" -> LET w == XlogY(x, y) IN w.k = "open" \/ VOk(out[i], w, IF IsNum(w) THEN RMul(TwoPow(-45), RAbs(RP(x))) ELSE Z0, TwoPow(-45))
              [] e.f = "gcd" -> out[i] = ToString(Gcd(In(x), In(y)))
              [] e.f = "lcm" -> LET l == Lcm(In(x), In(y)) IN RLe(RPow(RI(2), 31), l) \/ out[i] = RStr(l)
Hav(e, out) ==
  /\ Len(out) = Len(e.c[1])
  /\ \A i \in 1..Len(out) :
       LET o == [j \in 1..4 |-> At(e.c[j], i)] IN
       IF \E j \in 1..4 : o[j] = "null" THEN out[i] = "null"
       ELSE LET v == [j \in 1..4 |-> RP(o[j])] a == HavA(v[1], v[2], v[3], v[4]) f == e.ty = "f32" far == RLt(RQ(15, 16), a) IN
            VOk(out[i], VR(RMul(RI(6371), Angle(a))), IF far THEN (IF f THEN RI(20) ELSE RQ(1, 256)) ELSE IF f THEN RQ(1, 32) ELSE RDiv(U1, RPow(RI(2), 26)),
                IF f THEN TwoPow(-14) ELSE TwoPow(-36))
Norms(e, out) ==
  LET n == Len(e.c[1]) p == Len(e.c) IN
  /\ Len(out) = n
  /\ \A i \in 1..n :
       LET K == {j \in 1..p : e.c[j][i] # "null"} v == [j \in 1..p |-> IF j \in K THEN RP(e.c[j][i]) ELSE Z0] d == IF e.norm THEN RI(p) ELSE U1
           w == CASE e.f = "l1" -> RSum([j \in 1..p |-> RAbs(v[j])]) [] e.f = "l2" -> RSum([j \in 1..p |-> RMul(v[j], v[j])]) [] e.f = "linf" -> MaxOf([j \in 1..p |-> RAbs(v[j])]) IN
       IF K = {} THEN TRUE ELSE VOk(out[i], VR(RDiv(w, d)), Z0, RT(e))
Mono(e, f) ==
  LET s == Num(e.x) n == Len(s) up(st) == \A i \in 1..(n - 1) : IF st THEN RLt(s[i], s[i + 1]) ELSE RLe(s[i], s[i + 1])
      dn(st) == \A i \in 1..(n - 1) : IF st THEN RLt(s[i + 1], s[i]) ELSE RLe(s[i + 1], s[i]) B(b) == IF b THEN "1" ELSE "0" IN
  f.inc = B(up(FALSE)) /\ f.sinc = B(up(TRUE)) /\ f.dec = B(dn(FALSE)) /\ f.sdec = B(dn(TRUE))

(* a column in, a column out: the known values are transformed among themselves, nulls stay *)
Known(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] # "null")
Pick(s, K) == Eager([i \in 1..Len(K) |-> s[K[i]]])
Whole(e, out) ==
  LET K == Known(e.x) S == Num(Pick(e.x, K)) n == Len(K) f == e.f IN
  /\ Len(out) = Len(e.x) /\ \A i \in 1..Len(e.x) : e.x[i] = "null" => out[i] = "null"
  /\ n = 0 \/ (IF f = "znorm" /\ (n = 1 \/ RSgn(Var(S, 1)) = 0) THEN TRUE
               ELSE LET scale == RAdd(U1, MaxOf(Abs(S)))
                        W == CASE f = "center" -> Centre(S) [] f = "znorm" -> ZNorm(S) [] f = "softmax" -> Softmax(S)
                        tol == IF f = "center" THEN RMul(RT(e), scale) ELSE IF f = "znorm" THEN RMul(RT(e), RDiv(scale, RMin(U1, Sqrt(Var(S, 1))))) ELSE Z0 IN
                    \A i \in 1..n : VOk(out[K[i]], VR(W[i]), tol, RT(e)))
Trend(e, out) ==
  LET S == Num(e.x) n == Len(S) W == IF e.f = "linear" THEN Detrend(S) ELSE Centre(S) IN
  IF n < 2 THEN Len(out) = n
  ELSE Len(out) = n /\ \A i \in 1..n : VOk(out[i], VR(W[i]), RMul(IF e.ty = "f32" THEN TwoPow(-14) ELSE TwoPow(-38), RAdd(U1, MaxOf(Abs(S)))), Z0)
Trapezoid(e, out) ==
  LET Y == Num(e.y) n == Len(Y) X == IF e.dx THEN [i \in 1..n |-> RMul(RI(i), RAbs(RP(e.x[1])))] ELSE Num(e.x) IN
  IF n = 0 THEN out = "nan" ELSE VOk(out, VR(Trapz(Y, X)), RMul(TwoPow(-40), RSum([i \in 1..n |-> RMul(RAdd(U1, RAbs(Y[i])), RAdd(U1, RAbs(X[i])))])), Z0)
Convolved(e, out) ==
  LET X == Eager([i \in 1..Len(e.x) |-> IF e.x[i] = "null" THEN RP(e.fill) ELSE RP(e.x[i])]) H == Num(SelectSeq(e.h, LAMBDA o : RIsNum(o)))
      scale == RMul(RAdd(U1, RSum(Abs(X))), RAdd(U1, RSum(Abs(H)))) W == ConvMode(X, H, e.mode) IN
  Len(out) = Len(W) /\ \A i \in 1..Len(W) : VOk(out[i], VR(W[i]), RMul(TwoPow(-42), scale), Z0)
Fourier(e, out) ==
  LET S == Num(e.x) n == IF e.n = "0" THEN Len(S) ELSE In(e.n) X == Padded(S, n) D == Dft(X) m == IF e.full THEN n ELSE (n \div 2) + 1
      tol == RMul(TwoPow(-44), RAdd(U1, RSum(Abs(X)))) IN
  Len(out) = m /\ \A k \in 1..m : Len(out[k]) = 2 /\ VOk(out[k][1], VR(D[k - 1][1]), tol, Z0) /\ VOk(out[k][2], VR(D[k - 1][2]), tol, Z0)
Fitted(e, out) ==
  LET Y == Num(e.y) n == Len(Y) W == IF e.w = <<>> THEN [i \in 1..n |-> U1] ELSE Num(e.w)
      I == IF e.up THEN Isotonic(Y, W) ELSE Backwards(Isotonic(Backwards(Y), Backwards(W))) IN
  /\ Len(out) = n
  /\ n = 0 \/ (\A i \in 1..n : VOk(out[i], VR(I[i]), RMul(TwoPow(-40), RAdd(U1, MaxOf(Abs(Y)))), Z0))
Jac(e, f) ==
  LET D(s) == {s[i] : i \in 1..Len(s)} A == D(e.x) B == D(e.y) w == Jaccard(A \ {"null"}, B \ {"null"}) w2 == Jaccard(A, B)
      ok(o, v) == VOk(o, v, TwoPow(-50), Z0) IN
  ok(f.plain, w) /\ ok(f.nulls, w2)
JacRow(e, out) ==
  /\ Len(out) = Len(e.x)
  /\ \A i \in 1..Len(e.x) : IF e.x[i] = <<"none">> \/ e.y[i] = <<"none">> THEN out[i] = "null"
                            ELSE LET D(s) == {s[j] : j \in 1..Len(s)} IN VOk(out[i], Jaccard(D(e.x[i]), D(e.y[i])), TwoPow(-50), Z0)
Encode(e, f) ==       \* f: the pairs <<category, encoding>>
  LET T == SelectSeq([i \in 1..Len(e.t) |-> i], LAMBDA i : e.t[i] # "null") prior == Mean(Num(Pick(e.t, T)))
      R(c) == SelectSeq(T, LAMBDA i : e.x[i] = c) cats == {e.x[i] : i \in {T[j] : j \in 1..Len(T)}} \ {"null"} IN
  IF T = <<>> THEN TRUE
  ELSE /\ {f[j][1] : j \in 1..Len(f)} \ {"null"} = cats
       /\ \A i, j \in 1..Len(f) : i # j => f[i][1] # f[j][1]
       /\ \A j \in 1..Len(f) : f[j][1] = "null" \/ LET K == R(f[j][1]) IN
            VOk(f[j][2], VR(Encoded(RI(Len(K)), Mean(Num(Pick(e.t, K))), prior, RP(e.leaf), RP(e.smooth))), TwoPow(IF e.ty = "f32" THEN -18 ELSE -40), Z0)
Winsor(e, out) ==
  LET K == Known(e.x) S == Num(Pick(e.x, K)) n == Len(K) IN
  /\ Len(out) = Len(e.x) /\ \A i \in 1..Len(e.x) : e.x[i] = "null" => out[i] = "null"
  /\ n = 0 \/ \E lo \in Quantiles(S, RP(e.lo), e.m), hi \in Quantiles(S, RP(e.hi), e.m) : \A i \in 1..n :
                VOk(out[K[i]], VR(Clip(S[i], lo, hi)), RMul(TwoPow(-40), RAdd(U1, MaxOf(Abs(S)))), IF e.ty = "f32" THEN TwoPow(-20) ELSE Z0)
(* rows without nulls, centred if asked for *)
Table(e) == LET n == Len(e.c[1]) K == SelectSeq([i \in 1..n |-> i], LAMBDA i : \A j \in 1..Len(e.c) : e.c[j][i] # "null")
                C == Eager([j \in 1..Len(e.c) |-> LET q == Num(SelectSeq(e.c[j], LAMBDA o : o # "null")) m == IF e.centre /\ Len(q) > 0 THEN Mean(q) ELSE Z0 IN
                                                   [i \in 1..Len(K) |-> RSub(RP(e.c[j][K[i]]), m)]]) IN C
STol(e) == IF e.ty = "f32" THEN TwoPow(-14) ELSE TwoPow(-36)
Svd(e, f) ==
  LET C == Table(e) n == Len(C[1]) p == Len(C) IN
  IF n = 0 THEN LeftOpen(e)
  ELSE LET d == IF n < p THEN n ELSE p v == Num(f.s) q == Eager([i \in 1..Len(v) |-> RMul(v[i], v[i])]) tot == RSum(q) IN
       /\ Len(v) = d /\ AreSingular2([i \in 1..p |-> IF i <= d THEN q[i] ELSE Z0], C, STol(e)) /\ \A i \in 1..Len(v) : RSgn(v[i]) >= 0
       /\ (n < 2 \/ (Len(f.var) = d /\ \A i \in 1..d : VOk(f.var[i], VR(RDiv(q[i], RI(n - 1))), RMul(STol(e), RAdd(U1, tot)), Z0)))
       /\ (RSgn(tot) = 0 \/ (/\ Len(f.ratio) = d /\ \A i \in 1..d : VOk(f.ratio[i], VR(RDiv(v[i], RSum(v))), STol(e), Z0)
                             /\ (n < 2 \/ \A i \in 1..d : VOk(f.vratio[i], VR(RDiv(q[i], tot)), STol(e), Z0))))
       /\ Len(f.pca) = d
       /\ LET G == [i \in 1..p |-> [j \in 1..p |-> ColDot(C, i, j)]] V == Eager([k \in 1..d |-> Num(f.pca[k][2])]) t == RAdd(TwoPow(-60), RMul(STol(e), Minors(C)[1])) IN
          \A k \in 1..d :
            /\ RLe(RAbs(RSub(RP(f.pca[k][1]), v[k])), RMul(STol(e), RAdd(U1, v[1])))
            /\ Len(V[k]) = p /\ \A l \in 1..k : RLe(RAbs(RSub(RDot(V[k], V[l]), IF k = l THEN U1 ELSE Z0)), STol(e))
            /\ \A i \in 1..p : RLe(RAbs(RSub(RDot(G[i], V[k]), RMul(q[k], V[k][i]))), RMul(RI(64), t))
(* the components: along the principal vectors, so orthogonal, of the lengths of the singular values, and of X X' the eigenvectors *)
Comps(e, f) ==
  LET C == Table(e) n == Len(C[1]) p == Len(C) IN
  IF n = 0 THEN LeftOpen(e)
  ELSE IF n < In(e.k) THEN Len(f) = In(e.k) /\ \A k \in 1..Len(f) : Len(f[k]) = n /\ \A i \in 1..n : f[k][i] = "nan"     \* there are not that many
  ELSE LET P == Eager([k \in 1..Len(f) |-> Num(f[k])]) t == RAdd(TwoPow(-60), RMul(RI(256), RMul(STol(e), Minors(C)[1]))) IN
       /\ Len(f) = In(e.k) /\ \A k \in 1..Len(f) : Len(P[k]) = n
       /\ \A k, l \in 1..Len(f) : k # l => RLe(RAbs(RDot(P[k], P[l])), t)
       /\ \A k \in 1..(Len(f) - 1) : RLe(RDot(P[k + 1], P[k + 1]), RAdd(t, RDot(P[k], P[k])))
       /\ (Len(f) = p => AreSingular2([k \in 1..p |-> RDot(P[k], P[k])], C, STol(e)))
       /\ \A k \in 1..Len(f) : LET q == RDot(P[k], P[k]) w == [j \in 1..p |-> RDot(C[j], P[k])] IN      \* X (X' u) = |u|^2 u
            \A i \in 1..n : RLe(RAbs(RSub(RSum([j \in 1..p |-> RMul(C[j][i], w[j])]), RMul(q, P[k][i]))), RMul(t, RAdd(U1, Sqrt(Minors(C)[1]))))
ArgMax(e, out) == Len(out) = Len(e.x) /\ \A i \in 1..Len(e.x) : LET s == Num(e.x[i]) IN
                  s = <<>> \/ (LET k == In(out[i]) + 1 IN k \in 1..Len(s) /\ \A j \in 1..Len(s) : RLt(s[j], s[k]) \/ (REq(s[j], s[k]) /\ k <= j))

MayRefuse(e) ==
  \/ e.op = "conv" /\ (Len(e.x) < Len(SelectSeq(e.h, LAMBDA o : RIsNum(o))) \/ Len(SelectSeq(e.h, LAMBDA o : RIsNum(o))) < 2)
  \/ e.op = "fft" /\ e.x = <<>>
  \/ e.op \in {"svd", "comps"} /\ (Len(Table(e)[1]) = 0 \/ (e.op = "comps" /\ \E j \in 1..Len(e.c) : \E i \in 1..Len(e.c[j]) : e.c[j][i] = "null"))
  \/ e.op = "te" /\ \A i \in 1..Len(e.t) : e.t[i] = "null"
Accept(e) ==
  IF Raised(e) THEN MayRefuse(e) /\ LeftOpen(e)
  ELSE LET r == e.res IN
       CASE e.op = "map1" -> Map1(e, r.o) [] e.op = "map2" -> Map2(e, r.o) [] e.op = "hav" -> Hav(e, r.o) [] e.op = "norm" -> Norms(e, r.o)
         [] e.op = "mono" -> Mono(e, r) [] e.op = "whole" -> Whole(e, r.o) [] e.op = "trend" -> Trend(e, r.o) [] e.op = "trapz" -> Trapezoid(e, r.o)
         [] e.op = "conv" -> (IF MayRefuse(e) THEN TRUE ELSE Convolved(e, r.o)) [] e.op = "fft" -> Fourier(e, r.o) [] e.op = "iso" -> Fitted(e, r.o)
         [] e.op = "jac" -> Jac(e, r) [] e.op = "jacrow" -> JacRow(e, r.o) [] e.op = "te" -> Encode(e, r.o) [] e.op = "wins" -> Winsor(e, r.o)
         [] e.op = "svd" -> Svd(e, r) [] e.op = "comps" -> Comps(e, r.o) [] e.op = "amax" -> ArgMax(e, r.o)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
