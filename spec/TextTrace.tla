------------------------------ MODULE TextTrace ------------------------------
EXTENDS TraceCore, Stem
VARIABLES ev, verdict
NoString == <<-1>>
NoList == <<NoString>>

Odd == {S(w) : w \in {"nan", "inf", "infinity"}}          \* numbers to a parser, words to a reader
LowerAll(s) == FlattenSeq([i \in 1..Len(s) |-> Lower(s[i])])
StrCell(e, s, o) ==
  IF s = NoString THEN o = NoString
  ELSE CASE e.op = "ascii" -> o = ReplaceNonAscii(s, e.value)
         [] e.op = "diacritics" -> o = RemoveDiacritics(s)
         [] e.op = "spaces" -> o = IF e.only THEN SingleSpaces(s) ELSE NormalizeWhitespace(s)
         [] e.op = "map" -> o = MapWords(s, e.map)
         [] e.op = "case" -> o = ToCase(s, e.case)
         [] e.op = "form" -> o = NormalForm(s, e.form)
         [] e.op = "stem" -> o = Snowball(s, e.nostop) \/ (o = <<>> /\ LowerAll(Unsign(s)) \in Odd)
         [] e.op = "numjoin" -> o = Join(Numbers(IF e.comma THEN NoComma(s) ELSE s), e.join)
ListCell(e, s, o) ==
  IF s = NoString THEN o = NoList
  ELSE CASE e.op = "numbers" -> o = Numbers(IF e.comma THEN NoComma(s) ELSE s)
         [] e.op = "tokens" -> o = TokensBy(s, e.pat)
         [] e.op = "stems" -> Len(o) = Cardinality(StemSet(s, e.pat)) /\ {o[i] : i \in 1..Len(o)} = StemSet(s, e.pat)
Cast(x, dtype) == CASE dtype = "Float64" -> RF64(x) [] dtype = "Float32" -> RF32(x) [] OTHER -> x
NumCell(e, s, o) ==       \* o: sequence of number literals
  IF s = NoString THEN o = <<"null">>
  ELSE LET w == Numbers(IF e.comma THEN NoComma(s) ELSE s) IN
       /\ Len(o) = Len(w)
       /\ \A i \in 1..Len(w) : RIsNum(o[i]) /\ LET x == Cast(NumValue(w[i]), e.dtype) IN
            \* a decimal literal may be rounded either way by one unit in the last place
            REq(RP(o[i]), x) \/ (e.dtype \in {"Float64", "Float32"} /\ RLe(RAbs(RSub(RP(o[i]), x)), RMul(RAbs(x), Pow2(IF e.dtype = "Float64" THEN 52 ELSE 23))))
BoolCell(s, o) == IF s = NoString THEN o = "null" ELSE o = (IF s \in StopWords THEN "1" ELSE "0")

Accept(e) ==
  /\ ~Raised(e) /\ Len(e.res.v) = Len(e.a)
  /\ CASE e.op = "stop" -> e.res.dtype = "Boolean" /\ \A i \in 1..Len(e.a) : BoolCell(e.a[i], e.res.v[i])
       [] e.op = "numcast" -> e.res.dtype = "List(" \o e.dtype \o ")" /\ \A i \in 1..Len(e.a) : NumCell(e, e.a[i], e.res.v[i])
       [] e.op \in {"numbers", "tokens", "stems"} -> e.res.dtype = "List(String)" /\ \A i \in 1..Len(e.a) : ListCell(e, e.a[i], e.res.v[i])
       [] OTHER -> e.res.dtype = "String" /\ \A i \in 1..Len(e.a) : StrCell(e, e.a[i], e.res.v[i])

Init == ev \in 1..Len(Trace) /\ verdict = "pending"
Answer == /\ verdict = "pending" /\ UNCHANGED ev
          /\ IF Accept(Trace[ev]) THEN verdict' = "accepted"
             ELSE verdict' = "rejected" /\ PrintT(<<"REJECT", ev>>)
Next == Answer
=============================================================================
