-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Elementary and special functions on exact rationals, to about 100       *)
(* significant bits, by convergent series with positive or fast decreasing *)
(* terms.  NumMC.tla checks them against identities.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat

BITS == 110
Z0 == RI(0)
U1 == RI(1)
N2(x) == RSig(x, BITS)
Tiny110 == RDiv(U1, RPow(RI(2), 116))
SMul(x, y) == N2(RMul(x, y))
SDiv(x, y) == N2(RDiv(x, y))
SAdd(x, y) == N2(RAdd(x, y))
Negl(t, s) == RLe(RAbs(t), RMul(RAbs(s), Tiny110))     \* the term t no longer matters to the sum s

RECURSIVE ISqrtLoop(_, _)
ISqrtLoop(n, k) == IF k * k > n THEN k - 1 ELSE ISqrtLoop(n, k + 1)
(* square root to BITS significant bits *)
RECURSIVE ScaleUp(_, _)
ScaleUp(x, k) == IF RLe(U1, RMul(x, RPow(RI(4), k))) THEN k ELSE ScaleUp(x, k + 16)
Sqrt(x) == IF RSgn(x) = 0 THEN Z0 ELSE LET k == ScaleUp(x, 0) IN RSqrt(x, BITS + k)

(* sum of x^(2k+1)/(2k+1), k >= 0 *)
RECURSIVE AtanhLoop(_, _, _, _)
AtanhLoop(p, x2, k, s) ==
  LET t == SDiv(p, RI(2 * k + 1)) IN
  IF RSgn(p) = 0 \/ Negl(t, s) THEN SAdd(s, t) ELSE AtanhLoop(SMul(p, x2), x2, k + 1, SAdd(s, t))
Atanh(x) == IF RSgn(x) = 0 THEN Z0 ELSE AtanhLoop(x, SMul(x, x), 0, Z0)
Ln2 == RMul(RI(2), Atanh(RQ(1, 3)))
(* ln x, x > 0: x = m 2^k with m in [2/3, 4/3] *)
RECURSIVE LnReduce(_, _)
LnReduce(x, k) == IF RLt(x, RQ(2, 3)) THEN (IF RLt(x, RQ(1, 1024)) THEN LnReduce(RMul(x, RI(1024)), k - 10) ELSE LnReduce(RMul(x, RI(2)), k - 1))
                  ELSE IF RLt(RQ(4, 3), x) THEN (IF RLt(RI(1024), x) THEN LnReduce(RDiv(x, RI(1024)), k + 10) ELSE LnReduce(RDiv(x, RI(2)), k + 1))
                  ELSE <<x, k>>
Ln(x) == LET q == LnReduce(N2(x), 0) m == q[1] IN
         RAdd(RMul(RI(2), Atanh(SDiv(RSub(m, U1), RAdd(m, U1)))), RMul(RI(q[2]), Ln2))

RECURSIVE ExpLoop(_, _, _, _)
ExpLoop(x, k, t, s) == IF Negl(t, s) THEN s ELSE LET u == SDiv(RMul(t, x), RI(k)) IN ExpLoop(x, k + 1, u, SAdd(s, u))
TwoPow(k) == IF k >= 0 THEN RPow(RI(2), k) ELSE RDiv(U1, RPow(RI(2), -k))
(* e^x; below -2000 it is 0 for every purpose here *)
Exp(x) == IF RLt(x, RI(-2000)) THEN Z0
          ELSE LET k == RFloor(RDiv(x, Ln2)) r == N2(RSub(x, RMul(RI(k), Ln2))) IN
          RMul(ExpLoop(r, 1, U1, U1), TwoPow(k)) 
(* note: the first term is counted in the sum, and the loop adds from x^1 on *)
PowR(x, y) == Exp(RMul(y, Ln(x)))                       \* x > 0

(* arctangent *)
RECURSIVE AtanLoop(_, _, _, _)
AtanLoop(p, x2, k, s) ==
  LET t == SDiv(p, RI(2 * k + 1)) IN
  IF RSgn(p) = 0 \/ Negl(t, s) THEN s ELSE AtanLoop(RNeg(SMul(p, x2)), x2, k + 1, SAdd(s, t))
AtanS(x) == IF RSgn(x) = 0 THEN Z0 ELSE AtanLoop(x, SMul(x, x), 0, Z0)       \* |x| <= 1/2
Pi == RSub(RMul(RI(16), AtanS(RQ(1, 5))), RMul(RI(4), AtanS(RQ(1, 239))))
HalfPi == RDiv(Pi, RI(2))
RECURSIVE Atan(_)
Atan(x) == IF RSgn(x) < 0 THEN RNeg(Atan(RNeg(x)))
           ELSE IF RLt(U1, x) THEN RSub(HalfPi, Atan(SDiv(U1, x)))
           ELSE IF RLt(RQ(1, 2), x) THEN RAdd(RDiv(Pi, RI(4)), AtanS(SDiv(RSub(x, U1), RAdd(x, U1))))
           ELSE AtanS(x)
(* angle of (x, y) in (-pi, pi] *)
Atan2(y, x) == IF RSgn(x) > 0 THEN Atan(SDiv(y, x))
               ELSE IF RSgn(x) < 0 THEN (IF RSgn(y) >= 0 THEN RAdd(Atan(SDiv(y, x)), Pi) ELSE RSub(Atan(SDiv(y, x)), Pi))
               ELSE IF RSgn(y) > 0 THEN HalfPi ELSE IF RSgn(y) < 0 THEN RNeg(HalfPi) ELSE Z0
RECURSIVE SinLoop(_, _, _, _)
SinLoop(x2, k, t, s) == IF RSgn(t) = 0 \/ Negl(t, s) THEN s
                        ELSE LET u == SDiv(RNeg(RMul(t, x2)), RI((k + 1) * (k + 2))) IN SinLoop(x2, k + 2, u, SAdd(s, u))
SinS(x) == SinLoop(SMul(x, x), 1, N2(x), N2(x))                               \* |x| <= pi
Wrap(x) == LET k == RFloor(RAdd(RDiv(x, RMul(RI(2), Pi)), RQ(1, 2))) IN RSub(x, RMul(RI(2 * k), Pi))
(* the argument is brought into [-pi/2, pi/2], where the series does not cancel much *)
Sin(x) == LET r == Wrap(x) IN
          IF RLt(HalfPi, r) THEN SinS(RSub(Pi, r)) ELSE IF RLt(r, RNeg(HalfPi)) THEN SinS(RNeg(RAdd(Pi, r))) ELSE SinS(r)
Cos(x) == Sin(RAdd(x, HalfPi))
Asin(x) == IF REq(RAbs(x), U1) THEN RMul(RI(RSgn(x)), HalfPi) ELSE Atan(SDiv(x, Sqrt(RSub(U1, RMul(x, x)))))

(***************************************************************************)
(* ln Gamma(x), x > 0: the argument is shifted above 40 and Stirling's     *)
(* series (Bernoulli numbers B2..B30) gives about 110 bits there.          *)
(***************************************************************************)
Bern == << RQ(1, 6), RQ(-1, 30), RQ(1, 42), RQ(-1, 30), RQ(5, 66), RQ(-691, 2730), RQ(7, 6), RQ(-3617, 510), RQ(43867, 798),
           RQ(-174611, 330), RQ(854513, 138), RQ(-236364091, 2730), RQ(8553103, 6), RP("-23749461029/870"), RP("8615841276005/14322") >>
RECURSIVE Rising(_, _, _)
Rising(x, n, acc) == IF n = 0 THEN acc ELSE Rising(RAdd(x, U1), n - 1, SMul(acc, x))
RECURSIVE StirlingSum(_, _, _, _)
StirlingSum(k, p, x2, s) == IF k > Len(Bern) THEN s
                            ELSE StirlingSum(k + 1, SDiv(p, x2), x2, RAdd(s, SMul(RDiv(Bern[k], RI(2 * k * (2 * k - 1))), p)))
Stirling(x) == RAdd(RSub(RMul(RSub(x, RQ(1, 2)), Ln(x)), x),
                    RAdd(RDiv(Ln(RMul(RI(2), Pi)), RI(2)), StirlingSum(1, SDiv(U1, x), SMul(x, x), Z0)))
LnGamma(x) == IF RLe(RI(40), x) THEN Stirling(x)
              ELSE LET n == 40 - RFloor(x) IN RSub(Stirling(RAdd(x, RI(n))), Ln(Rising(x, n, U1)))

(***************************************************************************)
(* Regularised incomplete beta I_x(a, b): x^a (1-x)^b / (a B(a,b)) times   *)
(* the sum of the products of (a+b+k)/(a+1+k) x, positive terms.           *)
(***************************************************************************)
RECURSIVE BetaLoop(_, _, _, _, _, _)
BetaLoop(a, b, x, k, t, s) ==
  LET u == SMul(t, RDiv(RMul(RAdd(RAdd(a, b), RI(k)), x), RAdd(RAdd(a, U1), RI(k)))) IN
  IF Negl(u, s) \/ k > 4000 THEN s ELSE BetaLoop(a, b, x, k + 1, u, SAdd(s, u))
LnBeta(a, b) == RSub(RAdd(LnGamma(a), LnGamma(b)), LnGamma(RAdd(a, b)))
BetaS(x, a, b) == RMul(Exp(RSub(RAdd(RMul(a, Ln(x)), RMul(b, Ln(RSub(U1, x)))), RAdd(Ln(a), LnBeta(a, b)))),
                       BetaLoop(a, b, N2(x), 0, U1, U1))
BetaInc(x, a, b) ==
  IF RSgn(x) <= 0 THEN Z0 ELSE IF RLe(U1, x) THEN U1
  ELSE IF RLe(RMul(x, RAdd(RAdd(a, b), RI(2))), RAdd(a, U1)) THEN BetaS(x, a, b) ELSE RSub(U1, BetaS(RSub(U1, x), b, a))
(* 1 - I_x(a, b) without cancellation *)
BetaIncC(x, a, b) ==
  IF RSgn(x) <= 0 THEN U1 ELSE IF RLe(U1, x) THEN Z0
  ELSE IF RLe(RMul(x, RAdd(RAdd(a, b), RI(2))), RAdd(a, U1)) THEN RSub(U1, BetaS(x, a, b)) ELSE BetaS(RSub(U1, x), b, a)

(* Regularised lower incomplete gamma P(a, x), by its series of positive terms *)
RECURSIVE GammaLoop(_, _, _, _, _)
GammaLoop(a, x, k, t, s) == LET u == SMul(t, RDiv(x, RAdd(a, RI(k)))) IN
                            IF Negl(u, s) \/ k > 6000 THEN s ELSE GammaLoop(a, x, k + 1, u, SAdd(s, u))
GammaP(a, x) == IF RSgn(x) <= 0 THEN Z0
                ELSE RMul(Exp(RSub(RSub(RMul(a, Ln(x)), x), LnGamma(RAdd(a, U1)))), GammaLoop(a, N2(x), 1, U1, U1))
Erf(x) == IF RSgn(x) < 0 THEN RNeg(GammaP(RQ(1, 2), RMul(x, x))) ELSE GammaP(RQ(1, 2), RMul(x, x))
(* 1 - P(a, x): beyond the reach of 110 bits the complement is nothing *)
GammaQ(a, x) == RSub(U1, GammaP(a, x))

NormalCdf(z) == LET p == GammaP(RQ(1, 2), RDiv(RMul(z, z), RI(2))) IN
                RDiv(IF RSgn(z) >= 0 THEN RAdd(U1, p) ELSE RSub(U1, p), RI(2))
(* upper tail probabilities *)
StudentSf(t, nu) == LET h == RDiv(BetaInc(SDiv(nu, RAdd(nu, RMul(t, t))), RDiv(nu, RI(2)), RQ(1, 2)), RI(2)) IN
                    IF RSgn(t) >= 0 THEN h ELSE RSub(U1, h)
FisherSf(f, d1, d2) == IF RSgn(f) <= 0 THEN U1 ELSE BetaInc(SDiv(d2, RAdd(d2, RMul(d1, f))), RDiv(d2, RI(2)), RDiv(d1, RI(2)))
ChiSqSf(x, k) == IF RSgn(x) <= 0 THEN U1 ELSE GammaQ(RDiv(k, RI(2)), RDiv(x, RI(2)))
=============================================================================
