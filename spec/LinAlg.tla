------------------------------- MODULE LinAlg -------------------------------
(* Exact linear algebra on matrices of rationals (sequences of rows).      *)
EXTENDS Integers, Sequences, Rat

Zero == RI(0)
One == RI(1)
Rows(M) == Len(M)
Cols(M) == IF M = <<>> THEN 0 ELSE Len(M[1])
Transpose(M) == Eager([j \in 1..Cols(M) |-> [i \in 1..Rows(M) |-> M[i][j]]])
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]]
MatMul(A, B) == LET T == Transpose(B) IN Eager([i \in 1..Rows(A) |-> [j \in 1..Len(T) |-> RDot(A[i], T[j])]])
MatVec(A, v) == Eager([i \in 1..Rows(A) |-> RDot(A[i], v)])
MatAdd(A, B) == Eager([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RAdd(A[i][j], B[i][j])]])
VecSub(a, b) == Eager([i \in 1..Len(a) |-> RSub(a[i], b[i])])
Beside(A, B) == Eager([i \in 1..Rows(A) |-> A[i] \o B[i]])
Column(v) == [i \in 1..Len(v) |-> <<v[i]>>]

(* X' diag(w) X and X' diag(w) y *)
Gram(X, w) == LET T == Transpose(X) T2 == Eager([j \in 1..Len(T) |-> [i \in 1..Len(w) |-> RMul(w[i], T[j][i])]]) IN
              Eager([j \in 1..Len(T) |-> [k \in 1..Len(T) |-> RDot(T2[j], T[k])]])
GramVec(X, w, y) == LET T == Transpose(X) wy == Eager([i \in 1..Len(y) |-> RMul(w[i], y[i])]) IN
                    Eager([j \in 1..Len(T) |-> RDot(T[j], wy)])

(* Gauss-Jordan elimination from column c on; <<>> when the left square part is singular *)
RECURSIVE Eliminate(_, _, _)
Eliminate(M, c, n) ==
  IF c > n THEN M
  ELSE LET P == {p \in c..n : RSgn(M[p][c]) # 0} IN
    IF P = {} THEN <<>>
    ELSE LET p == CHOOSE q \in P : TRUE
             S == Eager([i \in 1..n |-> IF i = c THEN M[p] ELSE IF i = p THEN M[c] ELSE M[i]])
             piv == Eager([j \in 1..Len(S[c]) |-> RDiv(S[c][j], S[c][c])])
         IN Eliminate(Eager([i \in 1..n |-> IF i = c THEN piv ELSE [j \in 1..Len(piv) |-> RSub(S[i][j], RMul(S[i][c], piv[j]))]]), c + 1, n)
(* A^-1 B, or <<>> if A is singular *)
SolveMat(A, B) == LET n == Rows(A) E == Eliminate(Beside(A, B), 1, n) IN
                  IF E = <<>> THEN <<>> ELSE Eager([i \in 1..n |-> SubSeq(E[i], n + 1, n + Cols(B))])
Inverse(A) == SolveMat(A, Identity(Rows(A)))
AbsVec(v) == Eager([i \in 1..Len(v) |-> RAbs(v[i])])
AbsMat(A) == Eager([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RAbs(A[i][j])]])
RECURSIVE MaxOf(_)
MaxOf(v) == IF v = <<>> THEN Zero ELSE RMax(v[1], MaxOf(Tail(v)))
Norm(A) == MaxOf([i \in 1..Rows(A) |-> RSum(AbsVec(A[i]))])      \* largest absolute row sum
Trace1(A) == RSum([i \in 1..Rows(A) |-> A[i][i]])
Diag(A) == [i \in 1..Rows(A) |-> A[i][i]]
=============================================================================
