------------------------------- MODULE NumMC -------------------------------
(* Identities that pin the functions of Num down, over a grid of arguments *)
EXTENDS Num, TLC
CONSTANT K
VARIABLES i, j
Init == i \in 1..K /\ j \in 1..K
Next == UNCHANGED <<i, j>>
Close(x, y) == RLe(RAbs(RSub(x, y)), RMul(RAdd(RAbs(x), RDiv(U1, RPow(RI(2), 30))), RDiv(U1, RPow(RI(2), 60))))
X == RQ(3 * i - 2, 7)
Y == RQ(2 * j - 1, 5)
H == RQ(i, K + 1)
Identities ==
  /\ Close(Exp(Ln(X)), X) /\ Close(Ln(RMul(X, Y)), RAdd(Ln(X), Ln(Y))) /\ Close(Exp(RNeg(X)), RDiv(U1, Exp(X)))
  /\ Close(Exp(RAdd(X, Y)), RMul(Exp(X), Exp(Y)))
  /\ Close(RMul(Sqrt(X), Sqrt(X)), X) /\ Close(RMul(Sqrt(RDiv(X, RP("1000000000000"))), RI(1000000)), Sqrt(X))
  /\ Close(RAdd(RMul(Sin(X), Sin(X)), RMul(Cos(X), Cos(X))), U1)
  /\ Close(Sin(RAdd(X, Y)), RAdd(RMul(Sin(X), Cos(Y)), RMul(Cos(X), Sin(Y))))
  /\ Close(RDiv(Sin(Atan(X)), Cos(Atan(X))), X) /\ Close(Atan2(Sin(X), Cos(X)), Wrap(X))
  /\ Close(Sin(Asin(H)), H)
  /\ Close(Exp(LnGamma(RAdd(X, U1))), RMul(X, Exp(LnGamma(X))))
  /\ Close(Exp(LnGamma(RI(5))), RI(24)) /\ Close(RPow(Exp(LnGamma(RQ(1, 2))), 2), Pi)
  /\ Close(BetaInc(H, U1, Y), RSub(U1, PowR(RSub(U1, H), Y))) /\ Close(BetaInc(H, Y, U1), PowR(H, Y))
  /\ Close(RAdd(BetaInc(H, X, Y), BetaInc(RSub(U1, H), Y, X)), U1)
  /\ Close(RAdd(BetaInc(H, X, Y), BetaIncC(H, X, Y)), U1)
  (* I_x(a,b) = I_x(a+1,b) + x^a (1-x)^b / (a B(a,b)) *)
  /\ Close(BetaInc(H, X, Y), RAdd(BetaInc(H, RAdd(X, U1), Y), RDiv(RMul(PowR(H, X), PowR(RSub(U1, H), Y)), RMul(X, Exp(LnBeta(X, Y))))))
  /\ Close(GammaP(U1, X), RSub(U1, Exp(RNeg(X))))
  /\ Close(GammaP(Y, X), RAdd(GammaP(RAdd(Y, U1), X), RDiv(RMul(PowR(X, Y), Exp(RNeg(X))), Exp(LnGamma(RAdd(Y, U1))))))
  /\ Close(RAdd(StudentSf(X, RI(j)), StudentSf(RNeg(X), RI(j))), U1)
  /\ Close(StudentSf(X, U1), RSub(RQ(1, 2), RDiv(Atan(X), Pi)))
  /\ Close(FisherSf(RMul(X, X), U1, RI(j)), RMul(RI(2), StudentSf(X, RI(j))))
  /\ Close(ChiSqSf(X, RI(2)), Exp(RDiv(RNeg(X), RI(2)))) /\ Close(ChiSqSf(RMul(X, X), U1), RMul(RI(2), NormalCdf(RNeg(X))))
  /\ Close(RAdd(NormalCdf(X), NormalCdf(RNeg(X))), U1) /\ Close(Erf(RDiv(X, Sqrt(RI(2)))), RSub(RMul(RI(2), NormalCdf(X)), U1))
(* literature values: erf(1), Phi(1.96), e, pi *)
Values == /\ Close(RMul(RI(4), Atan(U1)), Pi)
          /\ RLe(RAbs(RSub(Erf(U1), RP("8427007929497148693/10000000000000000000"))), RP("1/1000000000000000000"))
          /\ RLe(RAbs(RSub(Exp(U1), RP("27182818284590452354/10000000000000000000"))), RP("1/1000000000000000000"))
          /\ RLe(RAbs(RSub(Pi, RP("31415926535897932385/10000000000000000000"))), RP("1/1000000000000000000"))
=============================================================================
