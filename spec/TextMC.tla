------------------------------- MODULE TextMC -------------------------------
(* The laws of the text operators, and that the operators agree with         *)
(* character-at-a-time automata, for every string over an alphabet.          *)
EXTENDS Stem, TLC
CONSTANTS Alphabet, N
VARIABLES in, out, mid    \* the automaton that collapses white space: input left, output, "inside a gap"
Strs == UNION {[1..k -> Alphabet] : k \in 0..N}
Init == in \in Strs /\ out = <<>> /\ mid = FALSE
Next == /\ in # <<>>
        /\ in' = Tail(in)
        /\ IF IsWhite(in[1]) THEN out' = out /\ mid' = (out # <<>>)
           ELSE out' = (IF mid THEN Append(out, 32) ELSE out) \o <<in[1]>> /\ mid' = FALSE
Start == out = <<>> /\ ~mid
Collapses == (in = <<>> => \A x \in {out} : NormalizeWhitespace(x) = x /\ SingleSpaces(x) = x)
Automaton == Start => LET f == FoldLeft(LAMBDA st, c : IF IsWhite(c) THEN <<st[1], st[1] # <<>>>>
                                  ELSE <<(IF st[2] THEN Append(st[1], 32) ELSE st[1]) \o <<c>>, FALSE>>, <<<<>>, FALSE>>, in)
                      IN NormalizeWhitespace(in) = f[1]
Forms == Start => /\ NFC(NFC(in)) = NFC(in) /\ NFD(NFD(in)) = NFD(in)
                  /\ NFC(NFD(in)) = NFC(in) /\ NFD(NFC(in)) = NFD(in)
                  /\ NFKC(NFC(in)) = NFKC(in) /\ NFKD(NFKC(in)) = NFKD(in) /\ NFKC(NFKC(in)) = NFKC(in)
Cleaning == Start => /\ ReplaceNonAscii(RemoveDiacritics(in), <<63>>) = RemoveDiacritics(in)
                     /\ Len(ReplaceNonAscii(in, <<63>>)) = Len(in)
                     /\ MapWords(in, <<>>) = NormalizeWhitespace(in)
Tokenised == Start => /\ \A i \in 1..Len(Numbers(in)) : IsNumber(Numbers(in)[i])
                      /\ SelectSeq(FlattenSeq(Numbers(in)), IsDigit) = SelectSeq(in, IsDigit)   \* no digit is lost
                      /\ \A i \in 1..Len(Tokens(in)) : Len(Tokens(in)[i]) >= 2
Named == Start => /\ ToCase(ToCase(in, "snake"), "constant") = ToCase(ToCase(ToCase(in, "snake"), "snake"), "constant")
                  /\ \A i \in 1..Len(ToCase(in, "snake")) : ToCase(in, "snake")[i] \notin {32, 45}
Stems == Start => Len(Stem(in)) <= Len(in) + 1
=============================================================================
