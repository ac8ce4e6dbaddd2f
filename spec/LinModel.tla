------------------------------ MODULE LinModel ------------------------------
(***************************************************************************)
(* Linear model objects.  What a model knows is                            *)
(*   nothing                                  [kind |-> "none"]            *)
(*   the moments A = X'X + l2, b = X'y of all it was fitted on and updated *)
(*   with since                               [kind |-> "moments", A, b]   *)
(*   values it was given                      [kind |-> "values", beta]    *)
(*   the data it was last fitted on (elastic net, known by its optimality  *)
(*   conditions)                              [kind |-> "data", X, y]      *)
(* A rejected call leaves it alone; the coefficients are A^-1 b.           *)
(* The state machine below carries the inverse along as the online model   *)
(* does and is checked against the moments.                                *)
(***************************************************************************)
EXTENDS Regression, TLC

Nothing == [kind |-> "none"]
Values(beta) == [kind |-> "values", beta |-> beta]
Moments(X, y, l2, bias) == LET M == WithBias(X, bias) w == Ones(Len(M)) IN
                           [kind |-> "moments", A |-> Normal(M, w, l2, bias), b |-> GramVec(M, w, y)]
FromInverse(inv, beta) == LET A == Inverse(inv) IN [kind |-> "moments", A |-> A, b |-> MatVec(A, beta)]
Plus(k, row, y, c) ==      \* one row, its impact scaled by c
  [kind |-> "moments",
   A |-> Eager([i \in 1..Len(row) |-> [j \in 1..Len(row) |-> RAdd(k.A[i][j], RMul(c, RMul(row[i], row[j])))]]),
   b |-> Eager([i \in 1..Len(row) |-> RAdd(k.b[i], RMul(c, RMul(row[i], y)))])]
Known(k) == IF k.kind = "moments" THEN Inverse(k.A) # <<>> ELSE TRUE
Beta(k) == IF k.kind = "values" THEN k.beta ELSE MatVec(Inverse(k.A), k.b)
=============================================================================
