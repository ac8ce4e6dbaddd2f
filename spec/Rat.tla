-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.                                                 *)
(*                                                                         *)
(* The definitions below are the meaning: a rational is a normalised pair  *)
(* <<numerator, denominator>> of integers with denominator > 0.  TLC's     *)
(* integers are 32 bits wide, so java/RatOverrides.java evaluates the same *)
(* operators on arbitrary-precision integers (as TLC itself evaluates      *)
(* Integers and Sequences).  RatMC.tla checks, for every small pair of     *)
(* operands, that the override and the definitions agree.                  *)
(*                                                                         *)
(* A float64 observed in the implementation is recorded as the exact       *)
(* dyadic rational it denotes, so nothing is lost on the way in and every  *)
(* comparison with a tolerance is decided by the specification.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE RatGcd(_, _)
RatGcd(a, b) == IF b = 0 THEN a ELSE RatGcd(b, a % b)
RatIAbs(a) == IF a < 0 THEN -a ELSE a
RatNorm(n, d) ==
  LET g == RatGcd(RatIAbs(n), RatIAbs(d))
      s == IF d < 0 THEN -1 ELSE 1
  IN  <<(s * n) \div g, (s * d) \div g>>

RI(n) == <<n, 1>>                                   \* integer -> rational
RQ(n, d) == RatNorm(n, d)                           \* n / d
RAdd(a, b) == RatNorm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == RatNorm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == RatNorm(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == RatNorm(a[1] * b[2], a[2] * b[1])     \* b # 0
RNeg(a) == <<-a[1], a[2]>>
RAbs(a) == <<RatIAbs(a[1]), a[2]>>
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RFloor(a) == a[1] \div a[2]                         \* greatest integer <= a
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN <<1, 1>> ELSE RMul(a, RPow(a, n - 1))
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(s[1], RSum(Tail(s)))
RDot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])

(* The operators below have no finite TLA+ definition worth evaluating;    *)
(* the override is their definition.                                       *)
RP(str) == CHOOSE r \in Int \X Int : TRUE           \* the number a literal "n", "n/d" denotes
RStr(r) == CHOOSE s \in STRING : TRUE               \* its literal "n" or "n/d"
RRnd(r, bits) == r                                  \* nearest multiple of 2^-bits
RSig(r, bits) == r                                  \* nearest number with that many significant bits
RSqrt(r, bits) == r                                 \* greatest multiple of 2^-bits not above the square root
RF64(r) == r                                        \* nearest IEEE-754 binary64 (ties to even)
RF32(r) == r                                        \* nearest IEEE-754 binary32 (ties to even)
IsRat(v) == TRUE                                    \* is the value a rational (and not, say, the string "nan")
Eager(v) == v                                       \* the same value, evaluated now (TLC re-evaluates function constructors at every application)
RIsNum(str) == TRUE                                 \* is the literal a finite number (not "null","nan","inf","-inf",...)
=============================================================================
