------------------------------ MODULE SpanText ------------------------------
(***************************************************************************)
(* The text form of span IDs, and which span ID a request has.             *)
(* Text is a sequence of byte values, a number of W hexadecimal digits is  *)
(* a sequence of W digit values (W is 16 in the real system), and a span   *)
(* ID is <<trace, span, parent>>.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT W

Zero == [i \in 1..W |-> 0]
Slash == 47
\* the value of a hexadecimal digit, or -1
Digit(c) == IF c \in 48..57 THEN c - 48
            ELSE IF c \in 65..70 THEN c - 55
            ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Char(d) == IF d < 10 THEN 48 + d ELSE 87 + d

Bad == <<>>
\* <<number>>, or Bad
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ Head(s) = 48 THEN Strip(Tail(s)) ELSE s
ParseNum(s) ==
    LET t == Strip(s) IN
    IF s = <<>> \/ (\E i \in DOMAIN s : Digit(s[i]) < 0) \/ Len(t) > W THEN Bad
    ELSE << [i \in 1..W |-> IF i <= W - Len(t) THEN 0 ELSE Digit(t[i - (W - Len(t))])] >>
FormatNum(n) == [i \in 1..W |-> Char(n[i])]

RECURSIVE Split(_)
Split(s) == LET ats == {i \in DOMAIN s : s[i] = Slash} IN
            IF ats = {} THEN <<s>>
            ELSE LET i == CHOOSE i \in ats : \A j \in ats : i <= j IN
                 <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)))

\* <<span ID>>, or Bad
Parse(s) ==
    LET p == Split(s) IN
    IF Len(p) \notin 2..3 THEN Bad
    ELSE LET q == [i \in DOMAIN p |-> ParseNum(p[i])] IN
         IF \E i \in DOMAIN q : q[i] = Bad THEN Bad
         ELSE << <<q[1][1], q[2][1], IF Len(q) = 3 THEN q[3][1] ELSE Zero>> >>
\* texts that mean the span ID: the real one is FormatId, or a longer one
FormatId(id) == FormatNum(id[1]) \o <<Slash>> \o FormatNum(id[2])
                  \o (IF id[3] = Zero THEN <<>> ELSE <<Slash>> \o FormatNum(id[3]))

(* A JSON number, written in decimal digits, as a number: <<number>> or    *)
(* Bad if it is too large.                                                 *)
RECURSIVE MulAdd(_, _, _)
\* n * 10 + d on the first k digits of n: <<overflow, digits>>
MulAdd(n, d, k) ==
    IF k = 0 THEN <<d, n>>
    ELSE LET v == n[k] * 10 + d IN MulAdd([n EXCEPT ![k] = v % 16], v \div 16, k - 1)
RECURSIVE Dec(_, _)
Dec(s, n) == IF s = <<>> THEN <<n>>
             ELSE LET m == MulAdd(n, Head(s) - 48, W) IN
                  IF m[1] > 0 THEN Bad ELSE Dec(Tail(s), m[2])
DecNum(s) == Dec(s, Zero)

(* The span ID of a request.  A header is the sequence of its values; only *)
(* the first counts, and an empty one is as good as none.                  *)
Present(h) == h # <<>> /\ h[1] # <<>>
\* what is known: <<"is", id>>, <<"child of", id>>, <<"root">> or <<"bad">>
Decide(span, parent) ==
    IF Present(span) THEN (IF Parse(span[1]) = Bad THEN <<"bad">> ELSE <<"is", Parse(span[1])[1]>>)
    ELSE IF Present(parent) THEN (IF Parse(parent[1]) = Bad THEN <<"bad">> ELSE <<"child of", Parse(parent[1])[1]>>)
    ELSE <<"root">>
\* id is an answer, where the numbers in seen are not new
FreshRoot(id, seen) == id[3] = Zero /\ id[1] \notin seen /\ id[2] \notin seen /\ id[1] # id[2] /\ id[1] # Zero /\ id[2] # Zero
FreshChild(id, of, seen) == id[1] = of[1] /\ id[3] = of[2] /\ id[2] \notin seen /\ id[2] # Zero
Answers(id, d, seen) ==
    CASE d[1] = "is" -> id = d[2]
      [] d[1] = "child of" -> FreshChild(id, d[2], seen)
      [] d[1] = "root" -> FreshRoot(id, seen)
      [] OTHER -> FALSE
=============================================================================
