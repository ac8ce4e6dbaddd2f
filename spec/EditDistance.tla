---------------------------- MODULE EditDistance ----------------------------
(***************************************************************************)
(* Edit distances and similarities on strings.  A string is a sequence of  *)
(* characters (Unicode scalar values, as integers).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Rat

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Min3(a, b, c) == Min2(a, Min2(b, c))
Iota(n) == [i \in 1..n |-> i]

(***************************************************************************)
(* Textbook recurrences (used by the model, exponential).                  *)
(***************************************************************************)
RECURSIVE LevRec(_, _)
LevRec(s, t) ==
  IF s = <<>> THEN Len(t) ELSE IF t = <<>> THEN Len(s)
  ELSE LET i == Len(s) j == Len(t) IN
       Min3(LevRec(Front(s), t) + 1, LevRec(s, Front(t)) + 1,
            LevRec(Front(s), Front(t)) + (IF s[i] = t[j] THEN 0 ELSE 1))
RECURSIVE LcsRec(_, _)
LcsRec(s, t) ==
  IF s = <<>> \/ t = <<>> THEN 0
  ELSE IF Last(s) = Last(t) THEN LcsRec(Front(s), Front(t)) + 1
  ELSE Max2(LcsRec(Front(s), t), LcsRec(s, Front(t)))
RECURSIVE OsaRec(_, _)
OsaRec(s, t) ==
  IF s = <<>> THEN Len(t) ELSE IF t = <<>> THEN Len(s)
  ELSE LET i == Len(s) j == Len(t)
           base == Min3(OsaRec(Front(s), t) + 1, OsaRec(s, Front(t)) + 1,
                        OsaRec(Front(s), Front(t)) + (IF s[i] = t[j] THEN 0 ELSE 1))
       IN IF i > 1 /\ j > 1 /\ s[i] = t[j - 1] /\ s[i - 1] = t[j]
          THEN Min2(base, OsaRec(SubSeq(s, 1, i - 2), SubSeq(t, 1, j - 2)) + 1) ELSE base

(***************************************************************************)
(* The same, row by row.  A row is indexed 1..Len(t)+1 (column 0 first).   *)
(***************************************************************************)
Lev(s, t) ==
  LET n == Len(t)
      step(row, i) == FoldLeft(LAMBDA acc, j :
                        Append(acc, Min3(acc[j] + 1, row[j + 1] + 1, row[j] + (IF s[i] = t[j] THEN 0 ELSE 1))),
                      <<i>>, Iota(n))
  IN  Last(FoldLeft(step, [j \in 1..n + 1 |-> j - 1], Iota(Len(s))))

Lcs(s, t) ==
  LET n == Len(t)
      step(row, i) == FoldLeft(LAMBDA acc, j :
                        Append(acc, IF s[i] = t[j] THEN row[j] + 1 ELSE Max2(acc[j], row[j + 1])),
                      <<0>>, Iota(n))
  IN  Last(FoldLeft(step, [j \in 1..n + 1 |-> 0], Iota(Len(s))))

Osa(s, t) ==                                  \* optimal string alignment: state is <<previous row, row>>
  LET n == Len(t)
      step(st, i) ==
        LET prev == st[1] row == st[2] IN
        <<row, FoldLeft(LAMBDA acc, j :
                 LET base == Min3(acc[j] + 1, row[j + 1] + 1, row[j] + (IF s[i] = t[j] THEN 0 ELSE 1)) IN
                 Append(acc, IF i > 1 /\ j > 1 /\ s[i] = t[j - 1] /\ s[i - 1] = t[j]
                             THEN Min2(base, prev[j - 1] + 1) ELSE base),
               <<i>>, Iota(n))>>
      r0 == [j \in 1..n + 1 |-> j - 1]
  IN  Last(FoldLeft(step, <<r0, r0>>, Iota(Len(s)))[2])

(* Unrestricted Damerau-Levenshtein (Lowrance and Wagner): all rows are kept *)
LastPos(s, c, upto) == LET P == {k \in 1..upto : s[k] = c} IN IF P = {} THEN 0 ELSE CHOOSE k \in P : \A m \in P : m <= k
DamLev(s, t) ==
  LET n == Len(t)
      step(rows, i) ==                         \* rows[k + 1] is row k
        LET row == rows[i] IN
        Append(rows, FoldLeft(LAMBDA acc, j :
                 LET base == Min3(acc[j] + 1, row[j + 1] + 1, row[j] + (IF s[i] = t[j] THEN 0 ELSE 1))
                     k == LastPos(s, t[j], i - 1)
                     l == LastPos(t, s[i], j - 1)
                 IN Append(acc, IF k > 0 /\ l > 0
                                THEN Min2(base, rows[k][l] + (i - k - 1) + 1 + (j - l - 1)) ELSE base),
               <<i>>, Iota(n)))
      rows == FoldLeft(step, <<[j \in 1..n + 1 |-> j - 1]>>, Iota(Len(s)))
  IN  Last(Last(rows))

HammingPad(s, t) ==
  Cardinality({i \in 1..Min2(Len(s), Len(t)) : s[i] # t[i]}) + Max2(Len(s), Len(t)) - Min2(Len(s), Len(t))

LcsDist(s, t) == Max2(Len(s), Len(t)) - Lcs(s, t)
Indel(s, t) == Len(s) + Len(t) - 2 * Lcs(s, t)

(* 1 - d / m, and 1 when there is nothing to compare *)
Norm(d, m) == IF m = 0 THEN RI(1) ELSE RSub(RI(1), RQ(d, m))
MaxLen(s, t) == Max2(Len(s), Len(t))

(***************************************************************************)
(* Jaro: characters match within the window; walking over t, each takes    *)
(* the first free equal character of s in its window.                      *)
(***************************************************************************)
JaroMatch(s, t) ==
  LET w == Max2(Max2(Len(s), Len(t)) \div 2 - 1, 0)
      step(st, j) ==                           \* st = <<used positions of s, matched positions of t in order>>
        LET C == {i \in Max2(1, j - w)..Min2(Len(s), j + w) : i \notin st[1] /\ s[i] = t[j]}
        IN  IF C = {} THEN st
            ELSE <<st[1] \cup {CHOOSE i \in C : \A k \in C : i <= k}, Append(st[2], j)>>
  IN  FoldLeft(step, <<{}, <<>>>>, Iota(Len(t)))
Jaro(s, t) ==
  IF s = <<>> /\ t = <<>> THEN RI(1)
  ELSE LET M == JaroMatch(s, t)
           m == Cardinality(M[1])
           ss == SetToSortSeq(M[1], <)
           tr == Cardinality({k \in 1..m : s[ss[k]] # t[M[2][k]]}) \div 2
       IN  IF m = 0 THEN RI(0)
           ELSE RDiv(RAdd(RAdd(RQ(m, Len(s)), RQ(m, Len(t))), RQ(m - tr, m)), RI(3))
CommonPrefix(s, t) ==
  LET P == {k \in 0..Min2(4, Min2(Len(s), Len(t))) : SubSeq(s, 1, k) = SubSeq(t, 1, k)}
  IN  CHOOSE k \in P : \A m \in P : m <= k
Boosted(s, t, w) == LET j == Jaro(s, t) IN RAdd(j, RMul(RMul(RI(CommonPrefix(s, t)), w), RSub(RI(1), j)))
(* Winkler's boost applies above the threshold 0.7 *)
JaroWinkler(s, t, w) ==
  LET j == Jaro(s, t) IN IF RLt(RQ(7, 10), j) THEN Boosted(s, t, w) ELSE j
=============================================================================
