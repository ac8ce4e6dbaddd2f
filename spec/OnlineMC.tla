------------------------------ MODULE OnlineMC ------------------------------
(***************************************************************************)
(* The online model as the implementation runs it - inverse and            *)
(* coefficients, one Woodbury step per update - against the rows it stands *)
(* for (a multiset: updates may remove any row added before).              *)
(***************************************************************************)
EXTENDS LinModel
CONSTANTS Bias, Lambda, MaxCount
VARIABLES bag, fit, inv, coef
RowsOf == {<<0, 1>>, <<1, 0>>, <<2, 3>>}
Row(o) == IF Bias THEN <<RI(o[1]), One>> ELSE <<RI(o[1])>>
Str(v) == [i \in 1..Len(v) |-> RStr(v[i])]
Num1(v) == Eager([i \in 1..Len(v) |-> RP(v[i])])
StrM(m) == [i \in 1..Len(m) |-> Str(m[i])]
NumM(m) == Eager([i \in 1..Len(m) |-> Num1(m[i])])
Bags == [RowsOf -> 0..MaxCount]
(* the moments of a bag *)
D == IF Bias THEN 2 ELSE 1
Empty == [kind |-> "moments",
          A |-> Eager([i \in 1..D |-> [j \in 1..D |-> IF i = j /\ ~(Bias /\ i = D) THEN RP(Lambda) ELSE Zero]]),
          b |-> Eager([i \in 1..D |-> Zero])]
Of(bg) == LET f[S \in SUBSET RowsOf] == IF S = {} THEN Empty
                                        ELSE LET o == CHOOSE x \in S : TRUE IN Plus(f[S \ {o}], Row(o), RI(o[2]), RI(bg[o]))
          IN f[RowsOf]
None == [o \in RowsOf |-> 0]
Init == bag = None /\ fit = FALSE /\ inv = <<>> /\ coef = <<>>
Fit == \E bg \in Bags : LET k == Of(bg) IN
         /\ Known(k) /\ bag' = bg /\ fit' = TRUE /\ inv' = StrM(Inverse(k.A)) /\ coef' = Str(Beta(k))
Update(o, c) ==
  /\ fit
  /\ LET x == Row(o) I == NumM(inv) B == Num1(coef)
         u == MatVec(I, x) d == RAdd(RI(c), RDot(x, u))
     IN /\ RSgn(d) # 0        \* the rest would not determine the model
        /\ LET r == RDiv(RSub(RI(o[2]), RDot(x, B)), d) IN
           /\ inv' = StrM(Eager([i \in 1..D |-> [j \in 1..D |-> RSub(I[i][j], RDiv(RMul(u[i], u[j]), d))]]))
           /\ coef' = Str(Eager([i \in 1..D |-> RAdd(B[i], RMul(u[i], r))]))
  /\ bag' = [bag EXCEPT ![o] = @ + c] /\ UNCHANGED fit
Add == \E o \in RowsOf : bag[o] < MaxCount /\ Update(o, 1)
Remove == \E o \in RowsOf : bag[o] > 0 /\ Update(o, -1)
Rejected == UNCHANGED <<bag, fit, inv, coef>>      \* too few rows, missing values, wrong width
Next == Fit \/ Add \/ Remove \/ Rejected
Spec == Init /\ [][Next]_<<bag, fit, inv, coef>>
SameModel == fit => LET k == Of(bag) IN Known(k) /\ coef = Str(Beta(k)) /\ inv = StrM(Inverse(k.A))
=============================================================================
