-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text cleaning: a string is the sequence of its code points.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, UnicodeTable, Rat

Ascii == "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} \cup {" "} |->
             IF ch = " " THEN 32 ELSE 32 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch)]
S(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]     \* the code points of an ASCII literal

UCodes == {UTable[i][1] : i \in 1..Len(UTable)}
UIndex == [c \in UCodes |-> CHOOSE i \in 1..Len(UTable) : UTable[i][1] = c]
UHas(c) == c \in UCodes
U(c, k) == UTable[UIndex[c]][k]
IsHangul(c) == c >= 44032 /\ c <= 55203
IsWord(c)  == IF UHas(c) THEN U(c, 2) ELSE TRUE        \* outside the table: Hangul, Han letters only
IsWhite(c) == UHas(c) /\ U(c, 3)
IsLower(c) == UHas(c) /\ U(c, 4)
IsUpper(c) == UHas(c) /\ U(c, 5)
Lower(c)   == IF UHas(c) THEN U(c, 6) ELSE <<c>>
Upper(c)   == IF UHas(c) THEN U(c, 7) ELSE <<c>>
Ccc(c)     == IF UHas(c) THEN U(c, 10) ELSE 0
IsAscii(c) == c < 128
IsDigit(c) == c >= 48 /\ c <= 57

Keep(s, P(_)) == SelectSeq(s, P)
Join(words, sep) == IF words = <<>> THEN <<>>
                    ELSE FoldLeft(LAMBDA a, w : a \o sep \o w, words[1], Tail(words))

(* maximal runs of characters satisfying P *)
Runs(s, P(_)) ==
  LET step(st, c) == IF P(c) THEN [st EXCEPT !.cur = Append(@, c)]
                     ELSE IF st.cur = <<>> THEN st ELSE [out |-> Append(st.out, st.cur), cur |-> <<>>]
      f == FoldLeft(step, [out |-> <<>>, cur |-> <<>>], s)
  IN  IF f.cur = <<>> THEN f.out ELSE Append(f.out, f.cur)

Words(s) == Runs(s, LAMBDA c : ~IsWhite(c))
NormalizeWhitespace(s) == Join(Words(s), <<32>>)
RECURSIVE SingleSpaces(_)
SingleSpaces(s) == IF Len(s) < 2 THEN s
                   ELSE IF s[1] = 32 /\ s[2] = 32 THEN SingleSpaces(Tail(s)) ELSE <<s[1]>> \o SingleSpaces(Tail(s))
(* mapping: sequence of <<from, to>> with distinct "from" *)
MapWord(w, m) == LET H == {i \in 1..Len(m) : m[i][1] = w} IN IF H = {} THEN w ELSE m[CHOOSE i \in H : TRUE][2]
MapWords(s, m) == Join([i \in 1..Len(Words(s)) |-> MapWord(Words(s)[i], m)], <<32>>)

ReplaceNonAscii(s, v) == FlattenSeq([i \in 1..Len(s) |-> IF IsAscii(s[i]) THEN <<s[i]>> ELSE v])

(***************************************************************************)
(* Unicode normalisation (UAX 15)                                          *)
(***************************************************************************)
Decomp(c, k) == \* k = 8 canonical, 9 compatibility; fully
  LET RECURSIVE full(_)
      full(x) == IF IsHangul(x)
                 THEN LET i == x - 44032 IN
                      <<4352 + (i \div 588), 4449 + ((i % 588) \div 28)>> \o (IF i % 28 = 0 THEN <<>> ELSE <<4519 + (i % 28)>>)
                 ELSE IF ~UHas(x) \/ U(x, k) = <<>> THEN <<x>>
                 ELSE FlattenSeq([i \in 1..Len(U(x, k)) |-> full(U(x, k)[i])])
  IN full(c)
(* canonical ordering: stable sort of each run of non-starters by class *)
RECURSIVE Insert(_, _)
Insert(acc, c) == IF acc = <<>> \/ Ccc(c) = 0 \/ Ccc(acc[Len(acc)]) <= Ccc(c) THEN Append(acc, c)
                  ELSE Append(Insert(SubSeq(acc, 1, Len(acc) - 1), c), acc[Len(acc)])
CanonOrder(s) == FoldLeft(Insert, <<>>, s)
Decomposed(s, k) == CanonOrder(FlattenSeq([i \in 1..Len(s) |-> Decomp(s[i], k)]))
NFD(s)  == Decomposed(s, 8)
NFKD(s) == Decomposed(s, 9)

(* primary composites: <<first, second>> -> composed, 0 if none *)
Pairs == {i \in 1..Len(UTable) : Len(UTable[i][8]) = 2 /\ ~UTable[i][11]}
PairMap == [p \in {UTable[i][8] : i \in Pairs} |-> UTable[CHOOSE i \in Pairs : UTable[i][8] = p][1]]
PairKeys == DOMAIN PairMap
ComposePair(a, b) ==
  IF a >= 4352 /\ a <= 4370 /\ b >= 4449 /\ b <= 4469 THEN 44032 + ((a - 4352) * 21 + (b - 4449)) * 28
  ELSE IF IsHangul(a) /\ (a - 44032) % 28 = 0 /\ b > 4519 /\ b <= 4546 THEN a + (b - 4519)
  ELSE IF <<a, b>> \in PairKeys THEN PairMap[<<a, b>>] ELSE 0
(* st.out: characters so far; st.star: index of last starter (0 none); st.last: class of the last character kept after it (-1: none) *)
ComposeStep(st, c) ==
  LET comb == IF st.star = 0 \/ (st.last # -1 /\ (st.last = 0 \/ st.last >= Ccc(c))) THEN 0 ELSE ComposePair(st.out[st.star], c)
  IN IF comb # 0 THEN [st EXCEPT !.out[st.star] = comb]
     ELSE IF Ccc(c) = 0 THEN [out |-> Append(st.out, c), star |-> Len(st.out) + 1, last |-> -1]
     ELSE [st EXCEPT !.out = Append(@, c), !.last = Ccc(c)]
Compose(s) == FoldLeft(ComposeStep, [out |-> <<>>, star |-> 0, last |-> -1], s).out
NFC(s)  == Compose(NFD(s))
NFKC(s) == Compose(NFKD(s))
NormalForm(s, f) == CASE f = "NFC" -> NFC(s) [] f = "NFD" -> NFD(s) [] f = "NFKC" -> NFKC(s) [] f = "NFKD" -> NFKD(s)
RemoveDiacritics(s) == SelectSeq(NFD(s), IsAscii)

(***************************************************************************)
(* Naming cases (as the inflections crate documents them)                  *)
(***************************************************************************)
IsSep(c) == c \in {32, 45, 95}
CamelStep(st, c) ==       \* cap: capitalise the next one
  IF st.cap THEN [cap |-> FALSE, last |-> c, out |-> st.out \o Upper(c)]
  ELSE IF IsSep(c) THEN [st EXCEPT !.cap = TRUE, !.last = c]
  ELSE IF st.last = -1 \/ ~IsLower(st.last) THEN [st EXCEPT !.last = c, !.out = @ \o Lower(c)]
  ELSE [st EXCEPT !.last = c, !.out = Append(@, c)]
Camel(s, cap) == FoldLeft(CamelStep, [cap |-> cap, last |-> -1, out |-> <<>>], s).out
Separated(s, M(_)) ==
  LET t == [i \in 1..Len(s) |-> IF IsSep(s[i]) THEN 95 ELSE s[i]] IN
  FlattenSeq([i \in 1..Len(t) |-> M(t[i]) \o (IF i < Len(t) /\ IsLower(t[i]) /\ IsUpper(t[i + 1]) THEN <<95>> ELSE <<>>)])
ToCase(s, k) == CASE k = "camel" -> Camel(s, FALSE) [] k = "pascal" -> Camel(s, TRUE)
                  [] k = "snake" -> Separated(s, Lower) [] k = "constant" -> Separated(s, Upper)

(***************************************************************************)
(* Numbers and tokens                                                      *)
(***************************************************************************)
(* tokens  digits ["." digits] | "." digits, scanned from the left *)
RunEnd(s, i) == LET E == {j \in i..Len(s) : ~IsDigit(s[j])} IN IF E = {} THEN Len(s) + 1 ELSE CHOOSE j \in E : \A k \in E : j <= k
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
RECURSIVE NumFrom(_, _)
NumFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsDigit(s[i]) THEN
    LET e == RunEnd(s, i) e2 == IF At(s, e) = 46 /\ IsDigit(At(s, e + 1)) THEN RunEnd(s, e + 1) ELSE e
    IN  <<SubSeq(s, i, e2 - 1)>> \o NumFrom(s, e2)
  ELSE IF s[i] = 46 /\ IsDigit(At(s, i + 1)) THEN <<SubSeq(s, i, RunEnd(s, i + 1) - 1)>> \o NumFrom(s, RunEnd(s, i + 1))
  ELSE NumFrom(s, i + 1)
Numbers(s) == NumFrom(s, 1)
NoComma(s) == SelectSeq(s, LAMBDA c : c # 44)
NumValue(w) ==            \* the value of a number token
  LET dot == {i \in 1..Len(w) : w[i] = 46}
      frac == IF dot = {} THEN 0 ELSE Len(w) - (CHOOSE i \in dot : TRUE)
      int == FoldLeft(LAMBDA a, c : IF c = 46 THEN a ELSE RAdd(RMul(a, RI(10)), RI(c - 48)), RI(0), w)
  IN RDiv(int, RPow(RI(10), frac))

TokensBy(s, pat) ==       \* the patterns the harness asks for
  CASE pat = "words" -> SelectSeq(Runs(s, IsWord), LAMBDA w : Len(w) >= 2)
    [] pat = "any" -> Runs(s, IsWord)
    [] pat = "digits" -> Runs(s, LAMBDA c : c \in 48..57)
    [] pat = "lower" -> Runs(s, LAMBDA c : c \in 97..122)
    [] pat = "solid" -> Runs(s, LAMBDA c : c # 32)
Tokens(s) == TokensBy(s, "words")

(* is the word a decimal number: [sign] digits [. digits] | [sign] . digits , optionally with an exponent *)
AllDigits(w) == w # <<>> /\ \A i \in 1..Len(w) : IsDigit(w[i])
Unsign(w) == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w
Fixed(w) == LET D == {i \in 1..Len(w) : w[i] = 46} IN
  \/ AllDigits(w)
  \/ /\ Cardinality(D) = 1 /\ Len(w) > 1
     /\ \A i \in 1..Len(w) : w[i] = 46 \/ IsDigit(w[i])
IsNumber(w) == LET v == Unsign(w) IN
  \/ Fixed(v)
  \/ \E i \in 1..Len(v) : v[i] \in {69, 101} /\ Fixed(SubSeq(v, 1, i - 1)) /\ AllDigits(Unsign(SubSeq(v, i + 1, Len(v))))

StopWords == {S(w) : w \in {
  "a", "about", "above", "after", "again", "against", "ain", "all", "am", "an", "and", "any",
  "are", "aren", "aren't", "as", "at", "be", "because", "been", "before", "being", "below", "between",
  "both", "but", "by", "can", "couldn", "couldn't", "d", "did", "didn", "didn't", "do", "does",
  "doesn", "doesn't", "doing", "don", "don't", "down", "during", "each", "few", "for", "from", "further",
  "had", "hadn", "hadn't", "has", "hasn", "hasn't", "have", "haven", "haven't", "having", "he", "her",
  "here", "hers", "herself", "him", "himself", "his", "how", "i", "if", "in", "into", "is",
  "isn", "isn't", "it", "it's", "its", "itself", "just", "ll", "m", "ma", "me", "mightn",
  "mightn't", "more", "most", "mustn", "mustn't", "my", "myself", "needn", "needn't", "no", "nor", "not",
  "now", "o", "of", "off", "on", "once", "only", "or", "other", "our", "ours", "ourselves",
  "out", "over", "own", "re", "s", "same", "shan", "shan't", "she", "she's", "should", "should've",
  "shouldn", "shouldn't", "so", "some", "such", "t", "than", "that", "that'll", "the", "their", "theirs",
  "them", "themselves", "then", "there", "these", "they", "this", "those", "through", "to", "too", "under",
  "until", "up", "ve", "very", "was", "wasn", "wasn't", "we", "were", "weren", "weren't", "what",
  "when", "where", "which", "while", "who", "whom", "why", "will", "with", "won't", "wouldn", "wouldn't",
  "y", "you", "you'd", "you'll", "you're", "you've", "your", "yours", "yourself", "yourselves"}}
=============================================================================
