----------------------------- MODULE PlotsTrace -----------------------------
(* Recorded drawings against the data they are drawn from. *)
EXTENDS TraceCore, Plots, SequencesExt
VARIABLES ev, verdict
Eps == Pow2(36)
Ok(o, w) == w.k = "open" \/ VOk(o, w, Eps, Eps)
RsOf(e, p) == Eager([i \in 1..Len(e.target) |-> [a |-> e.target[i], s |-> RP(p.v[i]), c |-> U1]])
(* shown to d decimals *)
IsOneOf(o, S) == \E x \in S : Near(o, x, Eps, Eps)
Shown(o, x, d) == Near(o, x, RAdd(RDiv(U1, RMul(RI(2), RPow(RI(10), d))), Eps), Eps)

Roc1(e, p, c) ==
  LET R == RsOf(e, p) IN
  IF ~TwoClasses(R) THEN TRUE
  ELSE LET P == RocPoints(R) IN
       /\ Len(c.pts) = Len(P) /\ \A i \in 1..Len(P) : Ok(c.pts[i][1], P[i][1]) /\ Ok(c.pts[i][2], P[i][2])
       /\ IF e.show THEN c.auc # "none" /\ Shown(c.auc, Auc(R).v, e.dec) ELSE c.auc = "none"
Roc(e, f) ==
  /\ [i \in 1..Len(f.curves) |-> f.curves[i].name] = [i \in 1..Len(e.preds) |-> e.preds[i].name]
  /\ \A i \in 1..Len(e.preds) : Roc1(e, e.preds[i], f.curves[i])

Scores(p) == Eager([i \in 1..Len(p.v) |-> RP(p.v[i])])
Cal1(e, p, c) ==
  LET S == Scores(p) A == Eager([i \in 1..Len(e.target) |-> RI(e.target[i])]) IN
  IF Touchy(S, S, e.bins) THEN TRUE
  ELSE LET P == Calibration(S, A, e.bins) IN
       Len(c.pts) = Len(P) /\ \A i \in 1..Len(P) : Near(c.pts[i][1], P[i][1], Eps, Eps) /\ Near(c.pts[i][2], P[i][2], Eps, Eps)
CalMakes(e) == \A i \in 1..Len(e.preds) : LET S == Scores(e.preds[i]) IN Distinct2(S, e.bins)
Cal(e, f) ==
  /\ [i \in 1..Len(f.curves) |-> f.curves[i].name] = [i \in 1..Len(e.preds) |-> e.preds[i].name]
  /\ \A i \in 1..Len(e.preds) : Cal1(e, e.preds[i], f.curves[i])

(* the line, its equation, and the points *)
Whole(e) == SelectSeq([i \in 1..Len(e.x) |-> i], LAMBDA i : e.x[i] # "null" /\ e.y[i] # "null" /\ (e.w = <<>> \/ e.w[i] # "null"))
TheLine(e) ==
  LET I == Whole(e) X == Eager([i \in 1..Len(I) |-> RP(e.x[I[i]])]) Y == Eager([i \in 1..Len(I) |-> RP(e.y[I[i]])])
      W == Eager([i \in 1..Len(I) |-> IF e.w = <<>> THEN U1 ELSE RP(e.w[I[i]])]) L == IF I = <<>> THEN [k |-> "open"] ELSE Line(X, Y, W, e.bias) IN
  IF L.k = "open" THEN L ELSE [k |-> "line", a |-> L.a, b |-> L.b, r2 |-> IF e.w = <<>> THEN RSquared(L, X, Y) ELSE Open]
LineDrawn(e, f) ==
  LET L == TheLine(e) all == Eager([i \in 1..Len(e.x) |-> <<e.x[i], e.y[i]>>]) got == Eager([i \in 1..Len(f.pts) |-> <<f.pts[i][1], f.pts[i][2]>>]) IN
  /\ ThinOk(got, all, e.max) /\ (Len(all) <= e.max => got = all)
  /\ L.k = "open" \/
       /\ \A i \in 1..Len(f.pts) : IF f.pts[i][1] = "null" THEN f.pts[i][3] = "null" ELSE Near(f.pts[i][3], At(L, RP(f.pts[i][1])), RMul(Eps, RAdd(U1, RAbs(L.a))), Eps)
       /\ IF ~e.eq THEN f.says = FALSE
          ELSE f.says /\ Shown(f.b, L.b, 4) /\ Shown(f.a, L.a, 4) /\ (L.r2.k = "open" \/ Shown(f.r2, L.r2.v, 4))

(* the cloud of components: those of the rows that pass the filter, coloured by theirs *)
Passing(e) == SelectSeq([i \in 1..Len(e.by) |-> i], LAMBDA i : e.filt = "" \/ RLe(RP(e.filt), RP(e.cols[1].v[i])))
Colours(s) == Eager([i \in 1..Len(s) |-> s[i][3]])
Gram(e, I, i, j) == RSum([k \in 1..Len(e.cols) |->
  LET m == IF e.center THEN Mean(Eager([t \in 1..Len(I) |-> RP(e.cols[k].v[I[t]])])) ELSE Z0 IN
  RMul(RSub(RP(e.cols[k].v[I[i]]), m), RSub(RP(e.cols[k].v[I[j]]), m))])
Pca(e, f) ==
  LET I == Passing(e) IN
  /\ Len(f.ref) = Len(I) /\ Colours(f.ref) = Eager([t \in 1..Len(I) |-> e.by[I[t]]])
  /\ ThinOk(f.pts, f.ref, e.max)
  (* with two features nothing is lost but the point of view *)
  /\ Len(e.cols) > 2 \/ \A i, j \in 1..Len(I) :
       LET g == Gram(e, I, i, j) d == RSub(RAdd(RMul(RP(f.ref[i][1]), RP(f.ref[j][1])), RMul(RP(f.ref[i][2]), RP(f.ref[j][2]))), g) IN
       RLe(RAbs(d), RMul(Pow2(26), RAdd(U1, RAbs(g))))

(* distributions *)
Shows(e) ==
  SelectSeq([i \in 1..Len(e.v) |-> i], LAMBDA i :
    /\ e.filt = "" \/ RLe(RP(e.filt), RP(e.other[i]))
    /\ (e.lo = "" /\ e.hi = "") \/ Inside(e.v[i], IF e.lo = "mean" THEN "" ELSE e.lo, e.hi)
    /\ e.lo # "mean" \/ RLe(Mean(Eager([j \in 1..Len(e.v) |-> RP(e.v[j])])), RP(e.v[i])))
Numbered(V) == Eager([i \in 1..Len(V) |-> RP(V[i])])
Marks(V, f) ==
  IF V = <<>> \/ \E i \in 1..Len(V) : V[i] \in {"nan", "inf", "-inf"} THEN TRUE
  ELSE LET K == SelectSeq(V, LAMBDA x : x # "null") IN
       IF K = <<>> THEN \A i \in 1..4 : f.marks[i][2] = "null"
       ELSE LET S == Numbered(K) IN
            /\ [i \in 1..4 |-> f.marks[i][1]] = <<"p5", "median", "avg", "p95">>
            /\ IsOneOf(f.marks[1][2], Nearest(S, RQ(1, 20))) /\ Ok(f.marks[2][2], VR(Median(S))) /\ Ok(f.marks[3][2], VR(Mean(S))) /\ IsOneOf(f.marks[4][2], Nearest(S, RQ(19, 20)))
Dist(e, f) ==
  LET I == Shows(e) V == Eager([t \in 1..Len(I) |-> e.v[I[t]]]) G == Eager([t \in 1..Len(I) |-> e.g[I[t]]]) IN
  /\ Len(f.data) = Len(V) /\ \A t \in 1..Len(V) : f.data[t] = (IF e.over THEN <<V[t], G[t]>> ELSE <<V[t], "-">>)
  /\ e.density \/ f.bins = (IF e.bins = 0 THEN 10 ELSE e.bins)
  /\ IF e.over THEN Len(f.marks) = 0 ELSE Len(f.marks) = 4 /\ Marks(V, f)
  /\ IF ~e.bad THEN f.bad = <<>>
     ELSE IF ~e.over THEN Len(f.bad) = 1 /\ Ok(f.bad[1][2], BadShare(V))
     ELSE LET L == {G[t] : t \in 1..Len(G)} IN
          /\ Len(f.bad) = Cardinality(L) /\ {f.bad[i][1] : i \in 1..Len(f.bad)} = L
          /\ \A i \in 1..Len(f.bad) : Ok(f.bad[i][2], BadShare(Eager([t \in 1..Cardinality({u \in 1..Len(G) : G[u] = f.bad[i][1]}) |->
               SelectSeq([u \in 1..Len(G) |-> IF G[u] = f.bad[i][1] THEN V[u] ELSE "-"], LAMBDA x : x # "-")[t]])))

Accept(e) ==
  CASE e.op = "call" -> Raised(e) = ~Legal(e.call)
    [] e.op = "roc" -> ~Raised(e) /\ Roc(e, e.res)
    [] e.op = "cal" -> IF ~CalMakes(e) THEN LeftOpen(e) ELSE ~Raised(e) /\ Cal(e, e.res)
    [] e.op = "line" -> IF Whole(e) = <<>> THEN LeftOpen(e) ELSE ~Raised(e) /\ LineDrawn(e, e.res)
    [] e.op = "pca" -> ~Raised(e) /\ Pca(e, e.res)
    [] e.op = "dist" -> IF \A i \in 1..Len(Shows(e)) : Bad(e.v[Shows(e)[i]]) THEN LeftOpen(e) ELSE ~Raised(e) /\ Dist(e, e.res)
Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
