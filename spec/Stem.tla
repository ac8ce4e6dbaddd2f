-------------------------------- MODULE Stem --------------------------------
(***************************************************************************)
(* The English (Porter 2) Snowball stemmer, from its published definition: *)
(* R1 is what follows the first non-vowel after a vowel, R2 the same       *)
(* within R1; each step replaces the longest suffix of its list.           *)
(***************************************************************************)
EXTENDS Text

Vowels == {S("a")[1], S("e")[1], S("i")[1], S("o")[1], S("u")[1], S("y")[1]}
cY == 89   cLowY == 121   cE == 101   cI == 105   cL == 108   cS == 115   cT == 116
V(c) == c \in Vowels
VWXY(c) == V(c) \/ c \in {119, 120, 89}
ValidLi == {99, 100, 101, 103, 104, 107, 109, 110, 114, 116}

EndsWith(w, x) == Len(w) >= Len(x) /\ SubSeq(w, Len(w) - Len(x) + 1, Len(w)) = x
Drop(w, n) == SubSeq(w, 1, Len(w) - n)
(* the longest of the suffixes that w ends with; <<-1>> if none *)
None == <<-1>>
Longest(w, X) == LET M == {x \in X : EndsWith(w, x)} IN
  IF M = {} THEN None ELSE CHOOSE x \in M : \A y \in M : Len(y) <= Len(x)
SS(strs) == {S(x) : x \in strs}

(* position after the first non-vowel following a vowel, from position i *)
RECURSIVE AfterVC(_, _, _)
AfterVC(w, i, seen) == IF i > Len(w) THEN -1
  ELSE IF seen /\ ~V(w[i]) THEN i
  ELSE AfterVC(w, i + 1, seen \/ V(w[i]))
P1(w) == LET pre == {x \in SS({"arsen", "commun", "gener"}) : Len(x) <= Len(w) /\ SubSeq(w, 1, Len(x)) = x}
             a == AfterVC(w, 1, FALSE)
         IN IF pre # {} THEN Len(CHOOSE x \in pre : TRUE) ELSE IF a = -1 THEN Len(w) ELSE a
P2(w) == LET p == P1(w) has == \/ AfterVC(w, 1, FALSE) # -1
                               \/ p < Len(w)
             a == AfterVC(w, p + 1, FALSE)
         IN IF ~has \/ a = -1 THEN Len(w) ELSE a
(* does suffix of length n lie in the region starting after p characters? *)
In(w, n, p) == p <= Len(w) - n

ShortEnd(w) == LET n == Len(w) IN
  \/ n >= 3 /\ ~VWXY(w[n]) /\ V(w[n - 1]) /\ ~V(w[n - 2])
  \/ n = 2 /\ ~V(w[2]) /\ V(w[1])

Prelude(w0) ==
  LET w == IF w0 # <<>> /\ w0[1] = 39 THEN Tail(w0) ELSE w0
      step(a, c) == Append(a, IF c = cLowY /\ (a = <<>> \/ V(a[Len(a)])) THEN cY ELSE c)
  IN FoldLeft(step, <<>>, w)
HasY(w) == \E i \in 1..Len(w) : w[i] = cY

Step0(w) == LET x == Longest(w, SS({"'", "'s'", "'s"})) IN IF x = None THEN w ELSE Drop(w, Len(x))
Step1a(w) ==
  LET x == Longest(w, SS({"ied", "s", "ies", "sses", "ss", "us"})) n == Len(w) IN
  CASE x = None -> w
    [] x = S("sses") -> Drop(w, 2)
    [] x \in SS({"ied", "ies"}) -> IF n - 3 >= 2 THEN Drop(w, 2) ELSE Drop(w, 1)
    [] x = S("s") -> IF \E i \in 1..n - 2 : V(w[i]) THEN Drop(w, 1) ELSE w
    [] OTHER -> w
Step1b(w, p1) ==
  LET x == Longest(w, SS({"ed", "eed", "ing", "edly", "eedly", "ingly"}))
      b == Drop(w, Len(x)) IN
  IF x = None THEN w
  ELSE IF x \in SS({"eed", "eedly"}) THEN (IF In(w, Len(x), p1) THEN b \o S("ee") ELSE w)
  ELSE IF ~\E i \in 1..Len(b) : V(b[i]) THEN w
  ELSE IF Longest(b, SS({"at", "bl", "iz"})) # None THEN b \o S("e")
  ELSE IF Longest(b, SS({"bb", "dd", "ff", "gg", "mm", "nn", "pp", "rr", "tt"})) # None THEN Drop(b, 1)
  ELSE IF Len(b) = p1 /\ ShortEnd(b) THEN b \o S("e")
  ELSE b
Step1c(w) == LET n == Len(w) IN
  IF n > 2 /\ w[n] \in {cY, cLowY} /\ ~V(w[n - 1]) THEN Append(Drop(w, 1), cI) ELSE w

Table2 == <<<<"tional", "tion">>, <<"enci", "ence">>, <<"anci", "ance">>, <<"abli", "able">>, <<"entli", "ent">>,
  <<"izer", "ize">>, <<"ization", "ize">>, <<"ational", "ate">>, <<"ation", "ate">>, <<"ator", "ate">>,
  <<"alism", "al">>, <<"aliti", "al">>, <<"alli", "al">>, <<"fulness", "ful">>, <<"ousli", "ous">>, <<"ousness", "ous">>,
  <<"iveness", "ive">>, <<"iviti", "ive">>, <<"biliti", "ble">>, <<"bli", "ble">>, <<"ogi", "og">>, <<"fulli", "ful">>,
  <<"lessli", "less">>, <<"li", "">>>>
Table3 == <<<<"tional", "tion">>, <<"ational", "ate">>, <<"alize", "al">>, <<"icate", "ic">>, <<"iciti", "ic">>,
  <<"ical", "ic">>, <<"ful", "">>, <<"ness", "">>, <<"ative", "">>>>
Coded(t) == [i \in 1..Len(t) |-> <<S(t[i][1]), S(t[i][2])>>]
T2 == Coded(Table2)
T3 == Coded(Table3)
Keys(t) == {t[i][1] : i \in 1..Len(t)}
Val(t, x) == t[CHOOSE i \in 1..Len(t) : t[i][1] = x][2]
Step2(w, p1) ==
  LET x == Longest(w, Keys(T2)) b == Drop(w, Len(x)) last == IF b = <<>> THEN -1 ELSE b[Len(b)] IN
  IF x = None \/ ~In(w, Len(x), p1) THEN w
  ELSE IF x = S("ogi") /\ last # cL THEN w
  ELSE IF x = S("li") /\ last \notin ValidLi THEN w
  ELSE b \o Val(T2, x)
Step3(w, p1, p2) ==
  LET x == Longest(w, Keys(T3)) IN
  IF x = None \/ ~In(w, Len(x), p1) THEN w
  ELSE IF x = S("ative") /\ ~In(w, 5, p2) THEN w
  ELSE Drop(w, Len(x)) \o Val(T3, x)
Suf4 == SS({"al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ism", "ate", "iti", "ous",
            "ive", "ize", "ion"})
Step4(w, p2) ==
  LET x == Longest(w, Suf4) b == Drop(w, Len(x)) IN
  IF x = None \/ ~In(w, Len(x), p2) THEN w
  ELSE IF x = S("ion") /\ (b = <<>> \/ b[Len(b)] \notin {cS, cT}) THEN w
  ELSE b
Step5(w, p1, p2) ==
  LET n == Len(w) b == Drop(w, 1) IN
  IF n = 0 THEN w
  ELSE IF w[n] = cE THEN (IF In(w, 1, p2) \/ (In(w, 1, p1) /\ ~ShortEnd(b)) THEN b ELSE w)
  ELSE IF w[n] = cL /\ In(w, 1, p2) /\ b # <<>> /\ b[n - 1] = cL THEN b
  ELSE w

Special == Coded(<<<<"skis", "ski">>, <<"skies", "sky">>, <<"dying", "die">>, <<"lying", "lie">>, <<"tying", "tie">>,
  <<"idly", "idl">>, <<"gently", "gentl">>, <<"ugly", "ugli">>, <<"early", "earli">>, <<"only", "onli">>, <<"singly", "singl">>,
  <<"sky", "sky">>, <<"news", "news">>, <<"howe", "howe">>, <<"atlas", "atlas">>, <<"cosmos", "cosmos">>, <<"bias", "bias">>,
  <<"andes", "andes">>>>)
Stop1a == SS({"inning", "outing", "canning", "herring", "earring", "proceed", "exceed", "succeed"})

Stem(w0) ==
  IF w0 \in Keys(Special) THEN Val(Special, w0)
  ELSE IF Len(w0) < 3 THEN w0
  ELSE LET w == Prelude(w0)
           yfound == \E i \in 1..Len(w) : w[i] = cY /\ w[i] # w0[i + (Len(w0) - Len(w))]
           p1 == P1(w) p2 == P2(w)
           a == Step1a(Step0(w))
           r == IF a \in Stop1a THEN a
                ELSE Step5(Step4(Step3(Step2(Step1c(Step1b(a, p1)), p1), p1, p2), p2), p1, p2)
       IN IF yfound THEN [i \in 1..Len(r) |-> IF r[i] = cY THEN cLowY ELSE r[i]] ELSE r

(* the stemming expression: numbers, and stop words on request, become the empty string *)
Snowball(w, nostop) == IF IsNumber(w) \/ (nostop /\ w \in StopWords) THEN <<>> ELSE Stem(w)
(* tokens, stemmed: each distinct non-empty stem once *)
StemSet(s, pat) == LET t == TokensBy(s, pat) IN {Snowball(t[i], TRUE) : i \in 1..Len(t)} \ {<<>>}
=============================================================================
