----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* Numeric transforms of columns by their definitions: functions of one    *)
(* value (with the answers at the edges of their domains), of a row, and   *)
(* of a column.                                                            *)
(***************************************************************************)
EXTENDS Stats

(* psi(x), x > 0: shifted above 40, then the asymptotic series *)
RECURSIVE PsiSum(_, _, _, _)
PsiSum(k, p, x2, s) == IF k > Len(Bern) THEN s ELSE PsiSum(k + 1, SDiv(p, x2), x2, RSub(s, SMul(RDiv(Bern[k], RI(2 * k)), p)))
PsiBig(x) == LET x2 == SMul(x, x) IN RAdd(RSub(Ln(x), RDiv(U1, RMul(RI(2), x))), PsiSum(1, SDiv(U1, x2), x2, Z0))
DigammaP(x) == IF RLe(RI(40), x) THEN PsiBig(x)
               ELSE LET n == 40 - RFloor(x) IN RSub(PsiBig(RAdd(x, RI(n))), RSum(Eager([i \in 1..n |-> SDiv(U1, RAdd(x, RI(i - 1)))])))
IsInt(x) == REq(x, RI(RFloor(x)))
Cot(x) == SDiv(Cos(x), Sin(x))
(* poles may answer -inf or nan *)
Digamma(x) == IF RSgn(x) > 0 THEN DigammaP(x) ELSE RSub(DigammaP(RSub(U1, x)), SMul(Pi, Cot(SMul(Pi, x))))
GammaF(x) == Exp(LnGamma(x))
TruncR(x) == IF RSgn(x) < 0 THEN RNeg(RI(RFloor(RNeg(x)))) ELSE RI(RFloor(x))
TruncBig(x) == LET m == RRnd(RAbs(x), 0) t == IF RLt(RAbs(x), m) THEN RSub(m, U1) ELSE m IN IF RSgn(x) < 0 THEN RNeg(t) ELSE t
ExpitF(x) == IF RLe(x, RI(-1000)) THEN Z0 ELSE IF RLe(RI(1000), x) THEN U1 ELSE RDiv(U1, RAdd(U1, Exp(RNeg(x))))
LogitF(x) == Ln(RDiv(x, RSub(U1, x)))
Exp2F(x) == Exp(RMul(x, Ln2))
SincF(x) == IF RSgn(x) = 0 THEN U1 ELSE LET y == RMul(Pi, x) IN SDiv(Sin(y), y)

(***************************************************************************)
(* Neighbouring floats: p significant bits, least normal exponent e0.      *)
(***************************************************************************)
RECURSIVE Log2F(_, _)
Log2F(x, k) == IF RLe(RPow(RI(2), 64), x) THEN Log2F(RDiv(x, RPow(RI(2), 64)), k + 64)
               ELSE IF RLt(x, RDiv(U1, RPow(RI(2), 64))) THEN Log2F(RMul(x, RPow(RI(2), 64)), k - 64)
               ELSE IF RLe(RI(2), x) THEN Log2F(RDiv(x, RI(2)), k + 1)
               ELSE IF RLt(x, U1) THEN Log2F(RMul(x, RI(2)), k - 1) ELSE k
MinOf(s) == RNeg(MaxOf(Eager([i \in 1..Len(s) |-> RNeg(s[i])])))
IMaxOf(a, b) == IF a > b THEN a ELSE b
UlpUp(x, p, e0) == TwoPow(IMaxOf(Log2F(x, 0), e0) - (p - 1))                     \* x > 0
UlpDown(x, p, e0) == LET e == Log2F(x, 0) IN IF e > e0 /\ REq(x, TwoPow(e)) THEN TwoPow(e - p) ELSE UlpUp(x, p, e0)
NextUp(x, p, e0) == IF RSgn(x) = 0 THEN TwoPow(e0 - (p - 1)) ELSE IF RSgn(x) > 0 THEN RAdd(x, UlpUp(x, p, e0)) ELSE RAdd(x, UlpDown(RNeg(x), p, e0))
NextDown(x, p, e0) == RNeg(NextUp(RNeg(x), p, e0))
MaxFloat(p, e0) == RMul(RSub(RI(2), TwoPow(1 - p)), TwoPow(1 - e0))

(***************************************************************************)
(* Whole numbers, distances, sets.                                         *)
(***************************************************************************)
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
Gcd(a, b) == GcdN(IAbs(a), IAbs(b))
Lcm(a, b) == IF a = 0 \/ b = 0 THEN Z0 ELSE RMul(RI(IAbs(a) \div Gcd(a, b)), RI(IAbs(b)))
Rad(d) == RMul(d, RDiv(Pi, RI(180)))
HavA(lat1, lon1, lat2, lon2) ==
  LET s == Sin(Rad(RDiv(RSub(lat2, lat1), RI(2)))) t == Sin(Rad(RDiv(RSub(lon2, lon1), RI(2)))) IN
  N2(RAdd(RMul(s, s), RMul(RMul(t, t), RMul(Cos(Rad(lat1)), Cos(Rad(lat2))))))
Angle(a) == IF RLe(U1, a) THEN Pi ELSE RMul(RI(2), Atan2(Sqrt(a), Sqrt(RSub(U1, a))))
Haversine(lat1, lon1, lat2, lon2) == RMul(RI(6371), Angle(HavA(lat1, lon1, lat2, lon2)))
Jaccard(A, B) == IF A \cup B = {} THEN NaN ELSE VR(RQ(Cardinality(A \cap B), Cardinality(A \cup B)))

(***************************************************************************)
(* A column as a whole.                                                    *)
(***************************************************************************)
ZNorm(s) == LET d == Sqrt(Var(s, 1)) IN Eager([i \in 1..Len(s) |-> RDiv(Centre(s)[i], d)])
Softmax(s) == LET x == Eager([i \in 1..Len(s) |-> Exp(s[i])]) t == RSum(x) IN Eager([i \in 1..Len(s) |-> RDiv(x[i], t)])
Trapz(y, x) == RSum(Eager([i \in 1..(Len(y) - 1) |-> RMul(RDiv(RAdd(y[i], y[i + 1]), RI(2)), RSub(x[i + 1], x[i]))]))
Detrend(s) == LET n == Len(s) t == [i \in 1..n |-> RI(i)] c == Centre(t) b == RDiv(RDot(c, s), RDot(c, c)) m == Mean(s) IN
              Eager([i \in 1..n |-> RSub(RSub(s[i], m), RMul(b, c[i]))])
(* sum of x[i] h[j] over i + j = k + 1 *)
Conv(x, h) == Eager([k \in 1..(Len(x) + Len(h) - 1) |->
                RSum([j \in 1..Len(h) |-> IF k - j + 1 \in 1..Len(x) THEN RMul(h[j], x[k - j + 1]) ELSE Z0])])
ConvMode(x, h, mode) ==
  LET f == Conv(x, h) n == Len(x) m == Len(h) IN
  CASE mode = "full" -> f [] mode = "left" -> SubSeq(f, 1, n) [] mode = "right" -> SubSeq(f, m, n + m - 1)
    [] mode = "same" -> SubSeq(f, ((m - 1) \div 2) + 1, ((m - 1) \div 2) + n) [] mode = "valid" -> SubSeq(f, m, n)
Padded(x, n) == Eager([i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE Z0])
Turn(n) == Eager([r \in 0..(n - 1) |-> <<Cos(RMul(RQ(2 * r, n), Pi)), Sin(RMul(RQ(2 * r, n), Pi))>>])
Dft(x) == LET n == Len(x) w == Turn(n) IN
          Eager([k \in 0..(n - 1) |-> << RSum([j \in 1..n |-> RMul(x[j], w[(k * (j - 1)) % n][1])]),
                                         RNeg(RSum([j \in 1..n |-> RMul(x[j], w[(k * (j - 1)) % n][2])])) >>])
(* the closest nondecreasing sequence: the greatest of the least weighted means of the stretches around i *)
StretchMean(y, w, a, b) == RDiv(RSum([i \in 1..(b - a + 1) |-> RMul(w[a + i - 1], y[a + i - 1])]), RSum(SubSeq(w, a, b)))
Isotonic(y, w) ==
  LET n == Len(y) M == Eager([a \in 1..n |-> [b \in 1..n |-> IF b >= a THEN StretchMean(y, w, a, b) ELSE Z0]]) IN
  Eager([i \in 1..n |-> MaxOf([a \in 1..i |-> MinOf([k \in 1..(n - i + 1) |-> M[a][i + k - 1]])])])
Backwards(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* the category's share of the target, drawn towards the overall share where the category is small *)
Encoded(cnt, p, prior, leaf, smooth) ==
  LET a == RDiv(U1, RAdd(U1, Exp(RNeg(RDiv(RSub(cnt, leaf), smooth))))) IN RAdd(RMul(a, p), RMul(RSub(U1, a), prior))
(* every value the q-quantile may take; a position within 2^-40 of a boundary may fall on either side *)
Quantiles(s, q, method) ==
  LET S == Sorted(s) n == Len(s) pos == RMul(q, RI(n - 1)) e == TwoPow(-40) lo == RFloor(RSub(pos, e)) hi == RFloor(RAdd(pos, e))
      At(i) == S[IF i < 0 THEN 1 ELSE IF i > n - 1 THEN n ELSE i + 1]
      up(x) == LET f == RFloor(x) IN IF REq(RI(f), x) THEN f ELSE f + 1 IN
  CASE method = "lower" -> {At(lo), At(hi)}
    [] method = "higher" -> {At(up(RSub(pos, e))), At(up(RAdd(pos, e)))}
    [] method = "nearest" -> {At(RFloor(RAdd(RSub(pos, e), RQ(1, 2)))), At(RFloor(RAdd(RAdd(pos, e), RQ(1, 2))))}
    [] method = "midpoint" -> {RDiv(RAdd(At(RFloor(p)), At(up(p))), RI(2)) : p \in {RSub(pos, e), pos, RAdd(pos, e)} \cup {x \in {RRnd(pos, 0)} : RLe(RAbs(RSub(x, pos)), e)}}
    [] method = "linear" -> {RAdd(At(RFloor(pos)), RMul(RSub(pos, RI(RFloor(pos))), RSub(At(RFloor(pos) + 1), At(RFloor(pos)))))}
Clip(x, lo, hi) == RMin(RMax(x, lo), hi)

(***************************************************************************)
(* Singular values through the elementary symmetric functions: the k-th    *)
(* one of the squared values is the sum of the principal k x k minors of   *)
(* the Gram matrix (up to 3 columns).                                      *)
(***************************************************************************)
ColDot(C, i, j) == RDot(C[i], C[j])
Minor2(C, i, j) == RSub(RMul(ColDot(C, i, i), ColDot(C, j, j)), RMul(ColDot(C, i, j), ColDot(C, i, j)))
Minor3(C) == LET a == ColDot(C, 1, 1) b == ColDot(C, 2, 2) c == ColDot(C, 3, 3) d == ColDot(C, 1, 2) e == ColDot(C, 1, 3) f == ColDot(C, 2, 3) IN
             RSub(RAdd(RMul(a, RMul(b, c)), RMul(RI(2), RMul(d, RMul(e, f)))), RAdd(RMul(a, RMul(f, f)), RAdd(RMul(b, RMul(e, e)), RMul(c, RMul(d, d)))))
Minors(C) == LET p == Len(C) IN
  CASE p = 1 -> << ColDot(C, 1, 1) >>
    [] p = 2 -> << RAdd(ColDot(C, 1, 1), ColDot(C, 2, 2)), Minor2(C, 1, 2) >>
    [] p = 3 -> << RSum([i \in 1..3 |-> ColDot(C, i, i)]), RSum(<<Minor2(C, 1, 2), Minor2(C, 1, 3), Minor2(C, 2, 3)>>), Minor3(C) >>
Symmetric(v) == LET p == Len(v) IN
  CASE p = 1 -> << v[1] >>
    [] p = 2 -> << RAdd(v[1], v[2]), RMul(v[1], v[2]) >>
    [] p = 3 -> << RSum(v), RSum(<<RMul(v[1], v[2]), RMul(v[1], v[3]), RMul(v[2], v[3])>>), RMul(v[1], RMul(v[2], v[3])) >>
(* v are the squared singular values of the columns C, up to the share tol of the largest *)
AreSingular2(v, C, tol) ==
  LET m == Minors(C) e == Symmetric(v) t == m[1] IN
  /\ Len(v) = Len(C) /\ \A i \in 1..Len(v) : RLe(RNeg(RMul(tol, t)), v[i]) /\ (i > 1 => RLe(v[i], RAdd(v[i - 1], RMul(tol, t))))
  /\ \A k \in 1..Len(v) : RLe(RAbs(RSub(e[k], m[k])), RMul(tol, RPow(t, k)))
=============================================================================
