-------------------------------- MODULE Vals --------------------------------
(***************************************************************************)
(* Numbers and the other answers an expression can give.  A value is       *)
(* [k |-> "num", v |-> rational], or [k |-> "nan"], "null", "inf", "-inf". *)
(* Arithmetic is exact, nan absorbs, and dividing by zero is nan.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat

VR(r) == [k |-> "num", v |-> r]
VI(n) == VR(RI(n))
NaN == [k |-> "nan"]
Null == [k |-> "null"]
Inf == [k |-> "inf"]
NegInf == [k |-> "-inf"]
Open == [k |-> "open"]                        \* the specification does not say
IsNum(x) == x.k = "num"
VOp(x, y, F(_, _)) == IF IsNum(x) /\ IsNum(y) THEN VR(F(x.v, y.v)) ELSE NaN
VAdd(x, y) == VOp(x, y, RAdd)
VSub(x, y) == VOp(x, y, RSub)
VMul(x, y) == VOp(x, y, RMul)
VDiv(x, y) == IF IsNum(x) /\ IsNum(y) /\ RSgn(y.v) # 0 THEN VR(RDiv(x.v, y.v)) ELSE NaN
(* division as floats do it *)
VQuo(x, y) == IF ~(IsNum(x) /\ IsNum(y)) THEN NaN
              ELSE IF RSgn(y.v) # 0 THEN VR(RDiv(x.v, y.v))
              ELSE CASE RSgn(x.v) = 0 -> NaN [] RSgn(x.v) > 0 -> Inf [] OTHER -> NegInf
(* the observed literal o is the value w, a number within atol + rtol |w| *)
VOk(o, w, atol, rtol) ==
  IF IsNum(w) THEN RIsNum(o) /\ RLe(RAbs(RSub(RP(o), w.v)), RAdd(atol, RMul(rtol, RAbs(w.v)))) ELSE o = w.k
=============================================================================
