------------------------------- MODULE Draws -------------------------------
(***************************************************************************)
(* Enumerations (combinations, products) and random columns.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Num, Rat
(* the increasing k-sequences over from..n, in lexicographic order *)
RECURSIVE Combos(_, _, _)
Combos(from, n, k) ==
  IF k = 0 THEN << <<>> >>
  ELSE IF n - from + 1 < k THEN <<>>
  ELSE LET R == Combos(from + 1, n, k - 1) IN [i \in 1..Len(R) |-> <<from>> \o R[i]] \o Combos(from + 1, n, k)
(* all pairs, the first member slowest *)
Prods(n, m) == [i \in 1..(n * m) |-> <<((i - 1) \div m) + 1, ((i - 1) % m) + 1>>]

(***************************************************************************)
(* Distributions: the probability that a draw is at most t.                *)
(***************************************************************************)
Clamp(x) == RMax(Z0, RMin(U1, x))
UniformCdf(lo, hi, t) == Clamp(RDiv(RSub(t, lo), RSub(hi, lo)))
DiscreteCdf(lo, hi, t) == Clamp(RDiv(RAdd(RSub(RI(RFloor(t)), lo), U1), RSub(hi, lo)))      \* over lo, lo + 1, ..., hi - 1
ExpCdf(l, t) == IF RSgn(t) <= 0 THEN Z0 ELSE RSub(U1, Exp(RNeg(RMul(l, t))))
GaussCdf(m, s, t) == NormalCdf(RDiv(RSub(t, m), s))
RECURSIVE BinSum(_, _, _, _, _)
BinSum(n, p, k, term, last) ==       \* term = P(k draws succeed)
  IF k > last THEN Z0 ELSE RAdd(term, BinSum(n, p, k + 1, SMul(term, RDiv(RMul(RI(n - k), p), RMul(RI(k + 1), RSub(U1, p)))), last))
BinomialCdf(n, p, k) == IF k < 0 THEN Z0 ELSE IF k >= n \/ RSgn(p) = 0 THEN U1 ELSE IF REq(p, U1) THEN Z0 ELSE BinSum(n, p, 0, RPow(RSub(U1, p), n), k)
(* n draws depart from their distribution by more than this with probability below 10^-12 (Dvoretzky, Kiefer, Wolfowitz, Massart) *)
Spread(n) == Sqrt(RQ(15, n))
=============================================================================
