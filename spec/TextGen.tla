------------------------------ MODULE TextGen ------------------------------
(* every string over a small alphabet, through every rule; every stop word *)
EXTENDS Stem, TLC, Json
CONSTANTS Alphabet, N
VARIABLES c
AllS == SetToSeq(UNION {[1..k -> Alphabet] : k \in 0..N})
StopSeq == SetToSeq(StopWords)
Init == c \in {[op |-> "ascii", a |-> AllS, value |-> v, ch |-> 1] : v \in {<<>>, <<63, 63>>}}
     \cup {[op |-> "diacritics", a |-> AllS, ch |-> 1]}
     \cup {[op |-> "spaces", a |-> AllS, only |-> b, ch |-> 1] : b \in BOOLEAN}
     \cup {[op |-> "map", a |-> AllS, map |-> m, ch |-> 1] : m \in {<<>>, <<<<<<97>>, <<66>>>>, <<<<66>>, <<97>>>>>>, <<<<<<97>>, <<>>>>>>}}
     \cup {[op |-> "case", a |-> AllS, case |-> k, ch |-> 1] : k \in {"camel", "pascal", "snake", "constant"}}
     \cup {[op |-> "form", a |-> AllS, form |-> f, ch |-> 1] : f \in {"NFC", "NFD", "NFKC", "NFKD"}}
     \cup {[op |-> "numbers", a |-> AllS, comma |-> b, ch |-> 1] : b \in BOOLEAN}
     \cup {[op |-> "tokens", a |-> AllS, pat |-> p, ch |-> 1] : p \in {"words", "any", "digits", "lower", "solid"}} \cup {[op |-> "stems", a |-> AllS, pat |-> p, ch |-> 1] : p \in {"words", "any"}}
     \cup {[op |-> "stop", a |-> StopSeq \o [i \in 1..Len(StopSeq) |-> Append(StopSeq[i], 115)] \o [i \in 1..Len(StopSeq) |-> Tail(StopSeq[i])], ch |-> 1]}
     \cup {[op |-> "stem", a |-> StopSeq, nostop |-> b, ch |-> 1] : b \in BOOLEAN}
     \cup {[op |-> "stem", a |-> SetToSeq(Keys(Special) \cup Stop1a), nostop |-> FALSE, ch |-> 1]}
Next == UNCHANGED c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
