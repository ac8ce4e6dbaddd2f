------------------------------ MODULE Rolling ------------------------------
(***************************************************************************)
(* The rolling regression as the state machine it is: the inverse of X'X   *)
(* and the coefficients are carried from window to window by a rank-one    *)
(* update for the row that enters and one for the row that leaves, and are *)
(* recomputed when the window before did not determine them.  Whatever the *)
(* history, they are those of the rows in the window.                      *)
(* (Numbers are kept as literals in the state.)                            *)
(***************************************************************************)
EXTENDS Regression, TLC
CONSTANTS Xs, Ys, Window, Bias, Lambda
VARIABLES win, ok, inv, coef
vars == <<win, ok, inv, coef>>
Obs == (Xs \X Ys) \cup {<<>>}
Row(o) == IF Bias THEN <<RI(o[1]), One>> ELSE <<RI(o[1])>>
Lam == RP(Lambda)
Str(v) == [i \in 1..Len(v) |-> RStr(v[i])]
Num1(v) == Eager([i \in 1..Len(v) |-> RP(v[i])])
StrM(m) == [i \in 1..Len(m) |-> Str(m[i])]
NumM(m) == Eager([i \in 1..Len(m) |-> Num1(m[i])])

Full(w) == SelectSeq(w, LAMBDA o : o # <<>>)
Fit(w) == LET f == Full(w) IN
          IF f = <<>> THEN (IF RSgn(Lam) > 0 /\ ~Bias THEN [ok |-> TRUE, inv |-> <<<<RDiv(One, Lam)>>>>, beta |-> <<Zero>>] ELSE [ok |-> FALSE])
          ELSE Problem(Eager([i \in 1..Len(f) |-> Row(f[i])]), Eager([i \in 1..Len(f) |-> RI(f[i][2])]), Ones(Len(f)), Lam, Bias)
(* Sherman-Morrison: add (c = 1) or remove (c = -1) one row; ok is lost when the removal leaves too little *)
Update(s, o, c) ==
  IF ~s.ok \/ o = <<>> THEN s
  ELSE LET x == Row(o)
           u == MatVec(s.inv, x)
           d == RAdd(RI(c), RDot(x, u))
       IN IF RSgn(d) = 0 THEN [ok |-> FALSE]
          ELSE LET r == RDiv(RSub(RI(o[2]), RDot(x, s.beta)), d) IN
               [ok |-> TRUE,
                inv |-> Eager([i \in 1..Len(x) |-> [j \in 1..Len(x) |-> RSub(s.inv[i][j], RDiv(RMul(u[i], u[j]), d))]]),
                beta |-> Eager([i \in 1..Len(x) |-> RAdd(s.beta[i], RMul(u[i], r))])]

Init == win = <<>> /\ ok = FALSE /\ inv = <<>> /\ coef = <<>>
Keep(s) == IF s.ok THEN ok' = TRUE /\ inv' = StrM(s.inv) /\ coef' = Str(s.beta) ELSE ok' = FALSE /\ inv' = <<>> /\ coef' = <<>>
Step(o) ==
  IF Len(win) < Window
  THEN /\ win' = Append(win, o)
       /\ IF Len(win) + 1 = Window THEN Keep(Fit(win')) ELSE UNCHANGED <<ok, inv, coef>>
  ELSE /\ win' = Append(Tail(win), o)
       /\ Keep(IF ok THEN Update(Update([ok |-> TRUE, inv |-> NumM(inv), beta |-> Num1(coef)], o, 1), Head(win), -1) ELSE Fit(win'))
Next == \E o \in Obs : Step(o)
Spec == Init /\ [][Next]_vars
Refits == Len(win) = Window =>
  LET P == Fit(win) IN
  /\ ok <=> P.ok
  /\ P.ok => coef = Str(P.beta) /\ inv = StrM(P.inv)
=============================================================================
