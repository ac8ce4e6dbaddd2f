---------------------------- MODULE TransformMC ----------------------------
(***************************************************************************)
(* A column is read one value at a time by a reader who keeps what a       *)
(* streaming implementation would: the pooled blocks of an isotonic fit,   *)
(* the product of the column's polynomial with the kernel's, the area so   *)
(* far.  In every state these agree with the definitions.                  *)
(***************************************************************************)
EXTENDS Transform
CONSTANTS N, Vals
VARIABLES ser, st
n == Len(ser)
S == Eager([i \in 1..n |-> RI(ser[i])])
KernI == <<2, -1, 1>>
Kern == Eager([i \in 1..3 |-> RI(KernI[i])])
W(i) == (i % 3) + 1
Weights == Eager([i \in 1..n |-> RI(W(i))])
(* pool the last block with its neighbour while it is not above it; a block is <<sum of w y, sum of w, length>> *)
Level(b) == RQ(b[1], b[2])
RECURSIVE Pool(_)
Pool(B) == LET k == Len(B) IN
  IF k < 2 \/ B[k - 1][1] * B[k][2] < B[k][1] * B[k - 1][2] THEN B
  ELSE Pool(Append(SubSeq(B, 1, k - 2), <<B[k - 1][1] + B[k][1], B[k - 1][2] + B[k][2], B[k - 1][3] + B[k][3]>>))
RECURSIVE Spread(_)
Spread(B) == IF B = <<>> THEN <<>> ELSE [i \in 1..B[1][3] |-> Level(B[1])] \o Spread(Tail(B))
AddAt(P, k, v) == [i \in 1..k + Len(Kern) - 1 |-> (IF i <= Len(P) THEN P[i] ELSE 0) + (IF i >= k THEN v * KernI[i - k + 1] ELSE 0)]
Init == ser = <<>> /\ st = [blocks |-> <<>>, poly |-> <<>>, area2 |-> 0]
Next == /\ n < N
        /\ \E v \in Vals :
             /\ ser' = Append(ser, v)
             /\ st' = [blocks |-> Pool(Append(st.blocks, <<W(n + 1) * v, W(n + 1), 1>>)),
                       poly |-> AddAt(st.poly, n + 1, v),
                       area2 |-> IF n = 0 THEN 0 ELSE st.area2 + v + ser[n]]
Eps == TwoPow(-80)
Close(x, y) == RLe(RAbs(RSub(x, y)), Eps)
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i])
CloseSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i])
Posn == Eager([i \in 1..n |-> RI(i)])
Product == Eager([i \in 1..Len(st.poly) |-> RI(st.poly[i])])
Monotone ==
  n > 0 => LET I == Isotonic(S, Weights) IN
           /\ SameSeq(I, Spread(st.blocks)) /\ SameSeq(Isotonic(I, Weights), I)
           /\ REq(RDot(Weights, I), RDot(Weights, S))
           /\ \A k \in 1..n : RLe(RDot(SubSeq(Weights, 1, k), SubSeq(I, 1, k)), RDot(SubSeq(Weights, 1, k), SubSeq(S, 1, k)))
Convolved ==
  n > 2 => /\ SameSeq(Conv(S, Kern), Product) /\ SameSeq(Conv(Kern, S), Product)
           /\ \A m \in {"left", "right", "same"} : Len(ConvMode(S, Kern, m)) = n
           /\ Len(ConvMode(S, Kern, "valid")) = n - 2 /\ SameSeq(ConvMode(S, Kern, "valid"), SubSeq(Product, 3, n))
Spectrum ==
  n > 2 => LET D == Dft(S) m == n + 2 F == Dft(Padded(S, m)) G == Dft(Padded(Kern, m)) H == Dft(Product) IN
           /\ Close(D[0][1], RSum(S)) /\ Close(RSum([k \in 1..n |-> RAdd(Square(D[k - 1][1]), Square(D[k - 1][2]))]), RMul(RI(n), RSum(Sq(S))))
           /\ \A k \in 1..(n - 1) : Close(D[k][1], D[n - k][1]) /\ Close(D[k][2], RNeg(D[n - k][2]))
           /\ \A k \in 0..(m - 1) : /\ Close(H[k][1], RSub(RMul(F[k][1], G[k][1]), RMul(F[k][2], G[k][2])))
                                    /\ Close(H[k][2], RAdd(RMul(F[k][1], G[k][2]), RMul(F[k][2], G[k][1])))
Areas ==
  n > 0 => /\ REq(Trapz(S, Posn), RQ(st.area2, 2)) /\ REq(Trapz(Backwards(S), Posn), RQ(st.area2, 2))
           /\ n > 2 => REq(Trapz(S, Posn), RAdd(Trapz(SubSeq(S, 1, 2), SubSeq(Posn, 1, 2)), Trapz(SubSeq(S, 2, n), SubSeq(Posn, 2, n))))
Scaled ==
  n > 1 => /\ LET d == Detrend(S) IN RSgn(RSum(d)) = 0 /\ RSgn(RDot(d, Posn)) = 0 /\ SameSeq(Detrend(d), d)
           /\ LET p == Softmax(S) IN Close(RSum(p), U1) /\ \A i, j \in 1..n : RLt(S[i], S[j]) => RLt(p[i], p[j])
           /\ RSgn(Var(S, 1)) # 0 => LET z == ZNorm(S) IN Close(RSum(z), Z0) /\ Close(Var(z, 1), U1)
QuantileLaws ==
  n > 0 => \A m \in {"lower", "higher", "nearest", "midpoint", "linear"} : \A q \in {RQ(1, 4), RQ(1, 3), RQ(2, 5)} :
           /\ \A v \in Quantiles(S, q, m) : RLe(MinOf(S), v) /\ RLe(v, MaxOf(S))
           /\ \E v \in Quantiles(S, q, "lower"), u \in Quantiles(S, q, "higher"), x \in Quantiles(S, q, m) : RLe(v, x) /\ RLe(x, u)
           /\ (n % 4 = 1 /\ REq(q, RQ(1, 4))) => \E v \in Quantiles(S, q, m) : REq(v, Sorted(S)[((n - 1) \div 4) + 1])
Spectral ==
  n > 1 => LET C == <<S, Posn>> m == Minors(C) d == Sqrt(RSub(Square(m[1]), RMul(RI(4), m[2])))
               v == <<RDiv(RAdd(m[1], d), RI(2)), RDiv(RSub(m[1], d), RI(2))>> IN
           /\ AreSingular2(v, C, TwoPow(-90)) /\ RLe(RNeg(Eps), v[2]) /\ RLe(v[2], RAdd(ColDot(C, 1, 1), Eps)) /\ RLe(ColDot(C, 2, 2), RAdd(v[1], Eps))
           /\ ~AreSingular2(<<RAdd(v[1], U1), RSub(v[2], U1)>>, C, TwoPow(-20))
Inv == Monotone /\ Convolved /\ Spectrum /\ Areas /\ Scaled /\ QuantileLaws /\ Spectral

(* laws of the functions of one value, of a pair, of the float grid, of sets *)
Arg == {RQ(1, 3), RQ(1, 2), U1, RQ(7, 4), RI(3), RQ(41, 2), RI(60)}
ASSUME \A x \in Arg : /\ Close(DigammaP(RAdd(x, U1)), RAdd(DigammaP(x), RDiv(U1, x)))
                      /\ (RLt(x, RI(20)) => Close(RDiv(GammaF(RAdd(x, U1)), GammaF(x)), x))
                      /\ Close(RAdd(ExpitF(x), ExpitF(RNeg(x))), U1) /\ Close(LogitF(ExpitF(RDiv(x, RI(4)))), RDiv(x, RI(4)))
                      /\ Close(RMul(Exp2F(x), Exp2F(RNeg(x))), U1)
ASSUME \A x \in {RQ(-1, 3), RQ(-5, 2), RQ(-21, 4)} : Close(Digamma(RAdd(x, U1)), RAdd(Digamma(x), RDiv(U1, x)))
ASSUME Close(Exp2F(RI(10)), RI(1024)) /\ Close(GammaF(RI(6)), RI(120)) /\ Close(SincF(RQ(1, 2)), RDiv(RI(2), Pi))
ASSUME \A x \in {RQ(7, 4), RQ(-7, 4), RI(3), RI(-3), RQ(1, 9), RQ(-1, 9), RQ(5, 2), RQ(-5, 2)} : REq(TruncBig(x), TruncR(x))
ASSUME \A a, b \in -9..9 : /\ REq(RMul(RI(Gcd(a, b)), Lcm(a, b)), RI(IAbs(a * b)))
                           /\ (a # 0 \/ b # 0) => Gcd(a, b) = CHOOSE g \in 1..9 : a % g = 0 /\ b % g = 0 /\ \A h \in (g + 1)..9 : ~(a % h = 0 /\ b % h = 0)
(* a toy float with 3 significant bits and least normal exponent -2 *)
Grid == {RMul(RI(s * m), TwoPow(e)) : s \in {-1, 1}, m \in 0..7, e \in -4..1}
ASSUME \A x \in Grid : LET u == NextUp(x, 3, -2) d == NextDown(x, 3, -2) IN
         /\ RLt(x, u) /\ RLt(d, x) /\ ~\E g \in Grid : RLt(x, g) /\ RLt(g, u)
         /\ ((\E g \in Grid : RLt(x, g)) => \E g \in Grid : REq(g, u)) /\ REq(NextDown(u, 3, -2), x) /\ REq(NextUp(d, 3, -2), x)
Places == {<<RI(a), RI(b)>> : a \in {-80, 0, 35}, b \in {-170, 20, 175}}
Hav(p, q) == Haversine(p[1], p[2], q[1], q[2])
ASSUME \A p, q \in Places : /\ Close(Hav(p, q), Hav(q, p)) /\ (p = q => RSgn(Hav(p, q)) = 0)
                            /\ LET c == RAdd(RMul(Sin(Rad(p[1])), Sin(Rad(q[1]))), RMul(RMul(Cos(Rad(p[1])), Cos(Rad(q[1]))), Cos(Rad(RSub(p[2], q[2]))))) IN
                               Close(Cos(RDiv(Hav(p, q), RI(6371))), c)
                            /\ \A o \in {<<RI(0), RI(20)>>, <<RI(-80), RI(175)>>} : RLe(Hav(p, q), RAdd(RAdd(Hav(p, o), Hav(o, q)), Eps))
ASSUME LET SS == SUBSET {1, 2, 3} J(A, B) == Jaccard(A, B) IN
       /\ J({}, {}).k = "nan" /\ \A A, B, C \in SS \ {{}} : /\ REq(J(A, B).v, J(B, A).v) /\ (REq(J(A, B).v, U1) <=> A = B)
                                                            /\ RLe(RSub(U1, J(A, C).v), RAdd(RSub(U1, J(A, B).v), RSub(U1, J(B, C).v)))
ASSUME LET e(c) == Encoded(RI(c), RQ(1, 4), RQ(3, 4), RI(5), RI(2)) IN
       REq(e(5), RQ(1, 2)) /\ \A c \in 1..9 : RLt(e(c + 1), e(c)) /\ RLt(RQ(1, 4), e(c)) /\ RLt(e(c), RQ(3, 4))
=============================================================================
