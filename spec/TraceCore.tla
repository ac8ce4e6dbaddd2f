----------------------------- MODULE TraceCore -----------------------------
(***************************************************************************)
(* Trace validation of independent requests.  A request is pending until   *)
(* the implementation answers it; the recorded answer is then either one   *)
(* the specification allows, or the event is rejected and reported.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Rat

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

Has(r, f) == f \in DOMAIN r
(* the call raised, panicked, crashed or hung instead of answering *)
Raised(e) == "exc" \in DOMAIN e.res

(* the number o, as observed, is x up to an absolute plus a relative error *)
Near(o, x, atol, rtol) == RIsNum(o) /\ RLe(RAbs(RSub(RP(o), x)), RAdd(atol, RMul(rtol, RAbs(x))))
(* accepted because the specification does not prescribe the answer here; counted in the evidence *)
LeftOpen(e) == PrintT(<<"UNJUDGED", e.op>>)
Pow2(k) == RDiv(RI(1), RPow(RI(2), k))     \* 2^-k
=============================================================================
