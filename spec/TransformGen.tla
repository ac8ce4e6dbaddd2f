---------------------------- MODULE TransformGen ----------------------------
(* Every short column over a few values, transformed in each way. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Vals
VARIABLES s, as
Kinds == {"map1", "map2", "mono", "whole", "trend", "trapz", "conv", "fft", "iso", "jac", "te", "wins", "svd"}
Init == as \in Kinds /\ s \in UNION {[1..n -> Vals] : n \in (IF as \in {"conv", "svd"} THEN 2 ELSE 1)..N}
Next == UNCHANGED <<s, as>>
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN 1 ELSE ((q[1] + 5 * Code(Tail(q))) % 1009)
H == Code(s)
Col == [i \in 1..Len(s) |-> ToString(s[i])]
Back == [i \in 1..Len(s) |-> Col[Len(s) + 1 - i]]
Ty == <<"f64", "u8", "i64", "f32">>[(H % 4) + 1]
X == H % 8
Sel(q) == q[(H % Len(q)) + 1]
Emit ==
  PrintT("CASE " \o ToJson(
    CASE as = "map1" -> [op |-> as, f |-> Sel(<<"expit", "logit", "exp2", "gamma", "digamma", "trunc", "fract", "sinc", "next_up", "next_down">>), x |-> Col, ty |-> Ty, ctx |-> X]
      [] as = "map2" -> [op |-> as, f |-> Sel(<<"xlogy", "gcd", "lcm">>), x |-> Col, y |-> Back, lit |-> FALSE, ty |-> IF H % 2 = 0 THEN "i32" ELSE "i64", ctx |-> X]
      [] as = "mono" -> [op |-> as, x |-> Col, ty |-> Ty, ctx |-> X]
      [] as = "whole" -> [op |-> as, f |-> Sel(<<"center", "znorm", "softmax">>), x |-> Col, ty |-> Ty, ctx |-> X]
      [] as = "trend" -> [op |-> as, f |-> Sel(<<"linear", "mean">>), x |-> Col, ty |-> Ty, ctx |-> X]
      [] as = "trapz" -> [op |-> as, y |-> Col, x |-> IF H % 2 = 0 THEN <<"1/2">> ELSE [i \in 1..Len(s) |-> ToString(i * i)], dx |-> (H % 2 = 0), ty |-> Ty, ctx |-> X]
      [] as = "conv" -> [op |-> as, x |-> Col, h |-> <<"1", "-2">>, as |-> Sel(<<"list", "np", "pl", "expr">>), fill |-> "0", how |-> Sel(<<"direct", "fft", "direct">>),
                         mode |-> Sel(<<"full", "same", "left", "right", "valid">>), par |-> (H % 2 = 0), ty |-> Ty, ctx |-> X]
      [] as = "fft" -> [op |-> as, x |-> Col, n |-> Sel(<<"0", "0", "3", "4">>), full |-> (H % 2 = 0), ty |-> Ty, ctx |-> X]
      [] as = "iso" -> [op |-> as, y |-> Col, w |-> IF H % 3 = 0 THEN [i \in 1..Len(s) |-> ToString((i % 2) + 1)] ELSE <<>>, up |-> (H % 2 = 0), ty |-> Ty, ctx |-> X]
      [] as = "jac" -> [op |-> as, x |-> Col, y |-> [i \in 1..Len(s) |-> IF i = 1 THEN "null" ELSE Col[1]], tx |-> "i64", ty |-> "i64", ctx |-> X]
      [] as = "te" -> [op |-> as, x |-> Col, t |-> [i \in 1..Len(s) |-> ToString(i % 2)], leaf |-> "2", smooth |-> "1", ty |-> "f64", ctx |-> H % 5]
      [] as = "wins" -> [op |-> as, x |-> Col, lo |-> "1/4", hi |-> "3/4", m |-> Sel(<<"nearest", "lower", "higher">>), ty |-> Ty, ctx |-> X]
      [] as = "svd" -> [op |-> as, c |-> <<Col, [i \in 1..Len(s) |-> ToString(i)]>>, centre |-> (H % 2 = 0), ty |-> Ty, ctx |-> X]))
=============================================================================
