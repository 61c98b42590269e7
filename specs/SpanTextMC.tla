----------------------------- MODULE SpanTextMC -----------------------------
(* All texts up to MaxLen over Alphabet, and all span IDs of W digits.     *)
EXTENDS SpanText, TLC
CONSTANTS Alphabet, MaxLen, Digits
VARIABLE x
Nums == [1..W -> Digits]
Ids == Nums \X Nums \X Nums
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == x \in ({"id"} \X Ids) \cup ({"text"} \X Texts)
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
RoundTrip == x[1] = "id" => Parse(FormatId(x[2])) = <<x[2]>>
\* acceptance, said differently: every accepted text is one of at most two
\* slashes whose pieces are numbers after dropping zeros
Hex == {c \in Alphabet : Digit(c) >= 0}
IsNum(s) == s # <<>> /\ (\A i \in DOMAIN s : s[i] \in Hex) /\ (\A i \in 1..(Len(s) - W) : s[i] = 48)
RECURSIVE Pieces(_, _, _)
Pieces(s, i, cur) == IF i > Len(s) THEN <<cur>>
                     ELSE IF s[i] = Slash THEN <<cur>> \o Pieces(s, i + 1, <<>>)
                     ELSE Pieces(s, i + 1, Append(cur, s[i]))
Grammar == x[1] = "text" =>
    ((Parse(x[2]) # Bad) <=> (LET p == Pieces(x[2], 1, <<>>) IN Len(p) \in {2, 3} /\ \A i \in DOMAIN p : IsNum(p[i])))
\* a parsed text means what its normal form means
Normal == x[1] = "text" => (Parse(x[2]) # Bad => Parse(FormatId(Parse(x[2])[1])) = Parse(x[2]))
=============================================================================
