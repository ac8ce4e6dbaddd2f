------------------------------ MODULE SeriesMC ------------------------------
(***************************************************************************)
(* A series is read one value at a time, and what a streaming reader would *)
(* keep is kept: the current and longest run, the phrases seen and the one *)
(* being read, the sums of powers and of changes, and the number of each   *)
(* order pattern.  In every state these agree with the definitions, and    *)
(* the laws relating the features hold.                                    *)
(***************************************************************************)
EXTENDS Series, SequencesExt
CONSTANTS N, Vals
VARIABLES ser, st
n == Len(ser)
S == Eager([i \in 1..n |-> RI(ser[i])])
Bits == [i \in 1..n |-> ser[i] > 0]
IAbs2(x) == IF x < 0 THEN -x ELSE x
Init == ser = <<>> /\ st = [run |-> 0, best |-> 0, runs |-> 0, seen |-> {}, cur |-> <<>>, sq |-> 0, chg |-> 0, pat |-> <<>>]
Next ==
  /\ n < N
  /\ \E v \in Vals :
       /\ ser' = Append(ser, v)
       /\ LET b == v > 0 run == IF b THEN st.run + 1 ELSE 0 w == Append(st.cur, b) w3 == Append(SubSeq(ser, n - 1, n), v) IN
          st' = [run |-> run, best |-> IF run > st.best THEN run ELSE st.best, runs |-> IF run = 1 THEN st.runs + 1 ELSE st.runs,
                 seen |-> st.seen \cup {w}, cur |-> IF w \in st.seen THEN w ELSE <<>>, sq |-> st.sq + v * v,
                 chg |-> IF n = 0 THEN 0 ELSE st.chg + IAbs2(v - ser[n]),
                 pat |-> IF n < 2 THEN st.pat ELSE Append(st.pat, Pattern([i \in 1..3 |-> RI(w3[i])]))]
Eps == RDiv(U1, RPow(RI(2), 80))
Close(x, y) == RLe(RAbs(RSub(x, y)), Eps)
LeE(x, y) == RLe(x, RAdd(y, Eps))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Scale(s, a, b) == Eager([i \in 1..Len(s) |-> RAdd(RMul(RI(a), s[i]), RI(b))])
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN <<>> ELSE [i \in 1..q[1][2] |-> q[1][1]] \o Glue(Tail(q))
Streaks ==
  /\ Longest(Bits, TRUE) = st.best /\ Len(RunsOf(Bits, TRUE)) = st.runs
  /\ Glue(Runs(ser)) = ser /\ \A i \in 1..(Len(Runs(ser)) - 1) : Runs(ser)[i][1] # Runs(ser)[i + 1][1]
  /\ LeE(MeanRun(Bits, TRUE), RI(Longest(Bits, TRUE)))
Phrases ==
  /\ LempelZiv(Bits) = Cardinality(st.seen)
  /\ LempelZiv(Bits) = LempelZiv([i \in 1..n |-> ~Bits[i]]) /\ LempelZiv(Bits) <= n
Sums ==
  n > 0 => /\ REq(Energy(S), RI(st.sq)) /\ (n > 1 => REq(MeanAbsChange(S), RQ(st.chg, n - 1)))
           /\ REq(MidRange(Scale(S, 3, 7)), RMul(RI(3), MidRange(S)))
           /\ REq(TopMean(S, n), Mean(Abs(S))) /\ REq(TopMean(S, n + 3), TopMean(S, n)) /\ REq(TopMean(S, 1), MaxOf(Abs(S)))
           /\ ~Constant(S) => LeE(SymmRatio(S), RQ(1, 2))
           /\ \A k \in 1..2 : n > 2 * k => /\ REq(C3(S, k), C3(Rev(S), k)) /\ REq(Reversal(S, k), RNeg(Reversal(Rev(S), k)))
           /\ \A k \in 1..2 : n > k => REq(LagMean(S, k), LagMean(Rev(S), k))
           /\ ~Constant(S) => /\ REq(AutoCorr(S, 0, 0), U1) /\ \A k \in 1..(n - 1) : REq(AutoCorr(S, k, 0), AutoCorr(Scale(S, -2, 5), k, 0))
Entropies ==
  n > 0 => /\ LeE(Entropy(ser), Ln(RI(Cardinality(Labels(ser))))) /\ RLe(RNeg(Eps), Entropy(ser))
           /\ (n > 2 => Close(PermEntropy(S, 1, 3), Entropy(st.pat)) /\ Close(PermEntropy(Scale(S, 2, 1), 1, 3), PermEntropy(S, 1, 3)))
           /\ LET y == Rev(ser) h == CondEntropy(ser, y) IN RLe(RNeg(Eps), h) /\ LeE(h, Entropy(ser)) /\ Close(CondEntropy(ser, ser), Z0)
           /\ n > 4 => Close(PermEntropy(S, 2, 2), Entropy([t \in 1..(n - 2) |-> ~RLe(S[t], S[t + 2])]))
Regularity ==
  n > 3 => \A r \in {RQ(1, 2), RI(1), RI(3)} :
           /\ Matches(S, 3, r) <= Matches(S, 2, r) /\ Matches(S, 2, r) % 2 = 0
           /\ Constant(S) => RSgn(ApEn(S, 2, r)) = 0
           /\ LET e == SampEn(S, 2, r) f == SampEn(Rev(S), 2, r) IN e.k = f.k /\ (e.k = "num" => Close(e.v, f.v) /\ RLe(RNeg(Eps), e.v))
Similarity ==
  n > 3 => LET q == SubSeq(S, 1, 2) \o <<RAdd(S[2], U1)>> D == SimDists(q, S, FALSE) Z == SimDists(q, S, TRUE) A == SimDists(Scale(q, 2, 1), S, TRUE) IN
           /\ Len(D) = n - 2 /\ \A i \in 1..Len(D) : RSgn(D[i]) >= 0 /\ RLe(RNeg(Eps), Z[i]) /\ LeE(Z[i], RI(8)) /\ Close(Z[i], A[i])
           \* the standardised distance in closed form is the one computed from standardised values
           /\ \A i \in 1..Len(D) : LET w == Window(S, i, 3) IN
                ~Constant(w) => LET dq == Sqrt(Var(q, 1)) dw == Sqrt(Var(w, 1)) cq == Centre(q) cw == Centre(w) IN
                                Close(Z[i], RSum([k \in 1..3 |-> Square(RSub(RDiv(cq[k], dq), RDiv(cw[k], dw)))]))
KnnLaws ==
  n > 3 => LET P == Points(<<S, Scale(Rev(S), 1, 1)>>) T == Points(<<Scale(S, 2, 3), Scale(Rev(S), 2, 0)>>) IN
    \A metric \in {"l2", "inf"} :
      LET a == KnnEntropy(P, 2, metric) b == KnnEntropy(T, 2, metric) IN
      \* twice as wide in each of two dimensions: ln 4 more entropy
      a.k = b.k /\ (IsNum(a) => Close(b.v, RAdd(a.v, RMul(RI(2), Ln2))))
ASSUME \A d \in 1..9 : /\ FirstDigit(RQ(d, 1000)) = d /\ FirstDigit(RMul(RI(-d), RPow(RI(10), 25))) = d /\ FirstDigit(RI(10 * d + 9)) = d
ASSUME Close(LnBall(1, "l2"), Z0) /\ Close(LnBall(2, "l2"), Ln(RDiv(Pi, RI(4)))) /\ Close(LnBall(3, "l2"), Ln(RDiv(Pi, RI(6))))
=============================================================================
