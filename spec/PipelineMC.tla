----------------------------- MODULE PipelineMC -----------------------------
(***************************************************************************)
(* A blueprint, the pipelines fitted from it, and saved copies of them,    *)
(* over every small training frame.  Steps are appended, the blueprint is  *)
(* materialised, pipelines are saved and loaded, frames are transformed;   *)
(* a pipeline means what it meant when it was fitted.  Cells are small     *)
(* integers (-1 a null) or letters.                                        *)
(***************************************************************************)
EXTENDS Pipeline
CONSTANTS N, Depth, Kinds, Wide
VARIABLES train, bp, pipe
Letters == <<"new", "p", "q">>
Earlier(a, b) == \E i, j \in 1..3 : i < j /\ Letters[i] = a /\ Letters[j] = b
IntCol(n, q) == [n |-> n, k |-> "int", x |-> TRUE, v |-> [i \in 1..Len(q) |-> IF q[i] = 9 THEN Null ELSE VI(q[i])]]
StrCol(n, q) == [n |-> n, k |-> "str", x |-> TRUE, v |-> [i \in 1..Len(q) |-> IF q[i] = 9 THEN Null ELSE SV(<<"p", "q", "new">>[q[i] + 1])]]
(* a frame of three columns from a sequence of rows <<a, s, y>> *)
Of(rows) == LET col(j) == [i \in 1..Len(rows) |-> rows[i][j]] IN << IntCol("a", col(1)), StrCol("s", col(2)), IntCol("y", col(3)) >>
Opts == [target |-> "y", exclude |-> <<"y">>]
On(n) == [s |-> "names", names |-> <<n>>]
A == [op |-> "col", n |-> "a"]
StepOf(k) ==
  CASE k = "mean" -> [op |-> "impute", sel |-> On("a"), m |-> "mean"]
    [] k = "mode" -> [op |-> "impute", sel |-> On("a"), m |-> "mode"]
    [] k = "modes" -> [op |-> "impute", sel |-> On("s"), m |-> "mode"]
    [] k = "cond" -> [op |-> "cimpute", m |-> "median", rules |-> <<[n |-> "a", e |-> [op |-> "gt", a |-> A, b |-> [op |-> "lit", w |-> "1"]]]>>]
    [] k = "all" -> [op |-> "center", sel |-> [s |-> "numeric"]]
    [] k = "std" -> [op |-> "scale", sel |-> [s |-> "numeric"], m |-> "standard"]
    [] k = "unit" -> [op |-> "scale", sel |-> On("a"), m |-> "min_max"]
    [] k = "abs" -> [op |-> "scale", sel |-> On("a"), m |-> "abs_max"]
    [] k = "win" -> [op |-> "winsor", sel |-> On("a"), lo |-> "1/4", hi |-> "3/4", m |-> "nearest"]
    [] k = "hot" -> [op |-> "onehot", sel |-> On("s"), sep |-> "_", first |-> FALSE, drop |-> TRUE]
    [] k = "rank" -> [op |-> "rank", n |-> "s", ranking |-> Letters, drop |-> FALSE]
    [] k = "tenc" -> [op |-> "tenc", sel |-> [s |-> "string"], target |-> "", leaf |-> "1", smooth |-> "1", default |-> "mean"]
    [] k = "woe" -> [op |-> "woe", sel |-> On("s"), target |-> "y", default |-> "zero"]
    [] k = "lin" -> [op |-> "linear", sel |-> On("y"), target |-> "a", bias |-> TRUE]
    [] k = "keep" -> [op |-> "filter", e |-> [op |-> "ge", a |-> A, b |-> [op |-> "lit", w |-> "1"]]]
    [] k = "twice" -> [op |-> "append", select |-> FALSE, exprs |-> <<[n |-> "b", e |-> [op |-> "mul", a |-> A, b |-> [op |-> "lit", w |-> "2"]]]>>]
    [] k = "rename" -> [op |-> "rename", pairs |-> << <<"a", "s">>, <<"s", "a">> >>]
    [] k = "nostr" -> [op |-> "drop", sel |-> [s |-> "string"], ex |-> <<>>]
Possible(F, k) == ~MustRefuse(F, StepOf(k), Opts) /\ (k \in {"mean", "std", "unit", "abs", "win", "cond", "twice", "keep", "lin"} => Get(F, "a").k # "str") /\ (k \in {"rank", "hot", "modes", "woe"} => "s" \in NameSet(F) /\ Get(F, "s").k = "str")

(* every way of fitting the steps q to F: the items of each *)
RECURSIVE Fitted(_, _)
Fitted(F, q) == IF q = <<>> THEN {<<>>}
                ELSE UNION {{its \o r : r \in Fitted(ApplyAll(F, its), Tail(q))} : its \in Items(F, StepOf(Head(q)), Opts)}
Cells == {<<a, s, y>> : a \in {0, 1, 3, 9}, s \in {0, 1, 9}, y \in {0, 1}} \ (IF Wide THEN {} ELSE {c \in {0, 1, 3, 9} \X {0, 1, 9} \X {0, 1} : (c[1] + c[2] + c[3]) % 2 = 1})
Tests == << << <<2, 2, 1>>, <<9, 0, 0>>, <<5, 9, 1>> >>, << <<1, 1, 0>> >>, <<>> >>
Init == /\ train \in UNION {[1..n -> Cells] : n \in 1..N}
        /\ \A i \in 1..(Len(train) - 1) : train[i][1] * 100 + train[i][2] * 10 + train[i][3] <= train[i + 1][1] * 100 + train[i + 1][2] * 10 + train[i + 1][3]
        /\ bp = <<>> /\ pipe = <<>>
Reached(q) == {ApplyAll(Of(train), its) : its \in Fitted(Of(train), q)}
AddStep == /\ Len(bp) < Depth
           /\ \E k \in Kinds : (\A F \in Reached(bp) : ~IsUndecided(F) /\ Possible(F, k)) /\ bp' = Append(bp, k)
           /\ UNCHANGED <<train, pipe>>
Materialise == bp # <<>> /\ pipe = <<>> /\ pipe' = bp /\ UNCHANGED <<train, bp>>
Next == AddStep \/ Materialise

Fits == Fitted(Of(train), pipe)
SameFrame(F, G) == \/ IsUndecided(F) \/ IsUndecided(G)
                   \/ (Len(F) = Len(G) /\ \A j \in 1..Len(F) : F[j].n = G[j].n /\ Len(F[j].v) = Len(G[j].v) /\ \A i \in 1..Len(F[j].v) : Same(F[j].v[i], G[j].v[i]))
Flip(F) == LET n == Height(F) IN TakeRows(F, [i \in 1..n |-> n + 1 - i])
(* what holds of every fitted pipeline p and every frame T given to it *)
Holds(P(_, _)) == \A p \in Fits : \A t \in 1..Len(Tests) : P(p, Of(Tests[t]))
(* each row is transformed by itself *)
RowWise == "keep" \notin SetOf(pipe) => Holds(LAMBDA p, T : LET G == ApplyAll(T, p) IN
             IF Height(T) = 0 THEN Height(G) = 0
             ELSE \A i \in 1..Height(T) : SameFrame(ApplyAll(TakeRows(T, <<i>>), p), TakeRows(G, <<i>>)))
(* the order of the rows makes no difference *)
OrderFree == Holds(LAMBDA p, T : LET G == ApplyAll(T, p) IN IsUndecided(G) \/ SameFrame(ApplyAll(Flip(T), p), Flip(G)))
OrderFreeFit == LET T == Of(Tests[1]) IN \A p \in Fitted(Flip(Of(train)), pipe) : \E q \in Fits : SameFrame(ApplyAll(T, p), ApplyAll(T, q))
(* every frame comes out with the columns of the training frame *)
SameColumns == Holds(LAMBDA p, T : LET F == ApplyAll(Of(train), p) G == ApplyAll(T, p) IN IsUndecided(F) \/ IsUndecided(G) \/ Names(F) = Names(G))
(* the target is what it was, up to the rows that are kept *)
TargetKept == "rename" \notin SetOf(pipe) => Holds(LAMBDA p, T : LET G == ApplyAll(T, p) IN
                IsUndecided(G) \/ ("y" \in NameSet(G) /\ ("keep" \notin SetOf(pipe) => \A i \in 1..Height(T) : Same(Get(G, "y").v[i], Get(T, "y").v[i]))))
LastIs(K) == pipe # <<>> /\ pipe[Len(pipe)] \in K
Ends == {ApplyAll(Of(train), p) : p \in Fits}
Done(n) == {Get(F, n) : F \in {G \in Ends : ~IsUndecided(G) /\ n \in NameSet(G)}}
Numbers(c) == SelectSeq(c.v, LAMBDA w : IsNum(w))
Imputed == LastIs({"mean", "mode"}) => \A c \in Done("a") : \A i \in 1..Len(c.v) : c.v[i].k # "null"
Centred == LastIs({"all", "std"}) => \A p \in Fits : LET G == ApplyAll(Of(train), p) IN ~IsUndecided(G) /\ "a" \in NameSet(G) =>
             LET c == Get(G, "a") q == Numbers(c) IN c.k = "str" \/ q = <<>> \/ RLe(RAbs(Mean(NumsOf(q))), TwoPow(-100))
UnitRange == LastIs({"unit"}) => \A c \in Done("a") : \A i \in 1..Len(c.v) : IsNum(c.v[i]) => RSgn(c.v[i].v) >= 0 /\ RLe(c.v[i].v, U1)
Hot == pipe = <<"hot">> => Holds(LAMBDA p, T : LET G == ApplyAll(T, p) H == SelectSeq(G, LAMBDA c : c.n \notin {"a", "y"}) IN
         \A i \in 1..Height(T) : LET ones == Cardinality({j \in 1..Len(H) : Same(H[j].v[i], VI(1))}) w == Get(T, "s").v[i] IN
           ones = (IF w.k = "str" /\ Len(H) > 0 /\ w.s \in SetOf(Cats(Of(train), "s")) THEN 1 ELSE 0))
Winsorized == pipe = <<"win">> => Holds(LAMBDA p, T : LET G == ApplyAll(T, p) IN SameFrame(ApplyAll(G, p), G))
EncodedBetween == pipe = <<"tenc">> => Holds(LAMBDA p, T : LET c == Get(ApplyAll(T, p), "s") IN \A i \in 1..Len(c.v) : IsNum(c.v[i]) => RSgn(c.v[i].v) >= 0 /\ RLe(c.v[i].v, U1))
=============================================================================
