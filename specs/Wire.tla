-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The collection protocol, byte by byte.  A connection carries messages,  *)
(* each preceded by its length as a varint.  A message is                  *)
(*   required group SpanID = 1 { required fixed64 trace = 2;               *)
(*                               required fixed64 span = 3;                *)
(*                               optional fixed64 parent = 4; }            *)
(*   repeated group Annotation = 5 { required string key = 6;              *)
(*                                   optional bytes value = 7; }           *)
(* in the protocol buffer encoding (fields in any order, unknown fields    *)
(* skipped, a repeated singular field merged, the last value winning).     *)
(* 64-bit numbers are sequences of 8 bytes, least significant first.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
MaxMessage == 1024 * 1024
Huge == 2^28                      \* stands for any number from there on

\* ------------------------------------------------------------ decoding
\* The varint at position i of b, whose bytes up to e count.
\* n = 0: there is none (cut short: more = TRUE, or too long).
Varint(b, i, e) ==
  LET len == CHOOSE k \in 1..11 :
               /\ \A j \in 1..(k-1) : i + j - 1 <= e /\ b[i + j - 1] >= 128
               /\ (k = 11 \/ i + k - 1 > e \/ b[i + k - 1] < 128)
      RECURSIVE Val(_)
      Val(k) == IF k > len THEN 0
                ELSE IF k > 4 THEN 0
                ELSE (b[i + k - 1] % 128) + 128 * Val(k + 1)
      v == IF \E j \in 5..len : b[i + j - 1] % 128 # 0 THEN Huge ELSE Val(1)
  IN  CASE len = 11 -> [v |-> 0, n |-> 0, more |-> FALSE]
        [] len < 11 /\ i + len - 1 > e -> [v |-> 0, n |-> 0, more |-> TRUE]
        [] len = 10 /\ b[i + 9] > 1 -> [v |-> 0, n |-> 0, more |-> FALSE]
        [] OTHER -> [v |-> IF v > Huge THEN Huge ELSE v, n |-> len, more |-> FALSE]

\* A tag: field number (Huge for any that large) and wire type.
Tag(b, i, e) == LET x == Varint(b, i, e)
                IN  [n |-> x.n, f |-> x.v \div 8, w |-> IF x.n = 0 THEN 0 ELSE b[i] % 8]

\* The position after the field contents of wire type w at i, 0 if malformed;
\* groups are skipped to their end.
RECURSIVE Skip(_, _, _, _), GroupEnd(_, _, _, _)
Skip(b, i, e, w) ==
  CASE w = 0 -> LET x == Varint(b, i, e) IN IF x.n = 0 THEN 0 ELSE i + x.n
    [] w = 5 -> IF i + 3 > e THEN 0 ELSE i + 4
    [] w = 1 -> IF i + 7 > e THEN 0 ELSE i + 8
    [] w = 2 -> LET x == Varint(b, i, e)
                IN  IF x.n = 0 THEN 0 ELSE IF i + x.n - 1 + x.v > e THEN 0 ELSE i + x.n + x.v
    [] w = 3 -> GroupEnd(b, i, e, 1).after
    [] OTHER -> 0
\* The end of the group whose contents begin at i (d groups are open):
\* at: position of its end tag, after: position behind it.
GroupEnd(b, i, e, d) ==
  LET t == Tag(b, i, e)
  IN  IF t.n = 0 THEN [at |-> 0, after |-> 0]
      ELSE IF t.w = 4 THEN IF d = 1 THEN [at |-> i, after |-> i + t.n] ELSE GroupEnd(b, i + t.n, e, d - 1)
      ELSE IF t.w = 3 THEN GroupEnd(b, i + t.n, e, d + 1)
      ELSE LET k == Skip(b, i + t.n, e, t.w) IN IF k = 0 THEN [at |-> 0, after |-> 0] ELSE GroupEnd(b, k, e, d)

Bad == [bad |-> TRUE]
BadFields == [f \in {1} |-> <<>>]
None == <<>>                      \* a field that is not there; <<x>>: there, with value x

\* Fields of the two groups, merged into acc.
RECURSIVE SpanFields(_, _, _, _), AnnFields(_, _, _, _)
SpanFields(b, i, e, acc) ==
  IF i > e THEN acc
  ELSE LET t == Tag(b, i, e)
           c == i + t.n
       IN  IF t.n = 0 \/ t.f = 0 THEN BadFields
           ELSE IF t.f \in {2, 3, 4} /\ t.w = 1
           THEN IF c + 7 > e THEN BadFields
                ELSE SpanFields(b, c + 8, e, [acc EXCEPT ![t.f] = <<SubSeq(b, c, c + 7)>>])
           ELSE LET k == Skip(b, c, e, t.w) IN IF k = 0 THEN BadFields ELSE SpanFields(b, k, e, acc)
AnnFields(b, i, e, acc) ==
  IF i > e THEN acc
  ELSE LET t == Tag(b, i, e)
           c == i + t.n
       IN  IF t.n = 0 \/ t.f = 0 THEN BadFields
           ELSE LET k == Skip(b, c, e, t.w)
                IN  IF k = 0 THEN BadFields
                    ELSE IF t.f \in {6, 7} /\ t.w = 2
                    THEN LET text == SubSeq(b, c + Varint(b, c, e).n, k - 1)
                         IN  AnnFields(b, k, e, [acc EXCEPT ![t.f] = <<text>>])
                    ELSE AnnFields(b, k, e, acc)

\* acc: the span fields so far and the annotations.
NoSpan == [f \in {2, 3, 4} |-> None]
NoAnn == [f \in {6, 7} |-> None]
Start == [span |-> NoSpan, anns |-> <<>>, bad |-> FALSE, missing |-> FALSE]
RECURSIVE Message(_, _, _, _)
Message(b, i, e, acc) ==
  IF i > e THEN acc
  ELSE LET t == Tag(b, i, e)
           c == i + t.n
       IN  IF t.n = 0 \/ t.f = 0 THEN [acc EXCEPT !.bad = TRUE]
           ELSE LET k == Skip(b, c, e, t.w)
                IN  IF k = 0 THEN [acc EXCEPT !.bad = TRUE]
                    ELSE IF t.f \in {1, 5} /\ t.w = 3
                    THEN LET g == GroupEnd(b, c, e, 1)
                         IN  IF t.f = 1
                             THEN LET s == SpanFields(b, c, g.at - 1, acc.span)
                                  IN  IF s = BadFields THEN [acc EXCEPT !.bad = TRUE]
                                      \* each group must have the required fields by itself
                                      ELSE LET own == SpanFields(b, c, g.at - 1, NoSpan)
                                           IN  Message(b, k, e, [acc EXCEPT !.span = s,
                                                 !.missing = @ \/ own[2] = None \/ own[3] = None])
                             ELSE LET a == AnnFields(b, c, g.at - 1, NoAnn)
                                  IN  IF a = BadFields THEN [acc EXCEPT !.bad = TRUE]
                                      ELSE Message(b, k, e, [acc EXCEPT !.anns = Append(@, a),
                                                             !.missing = @ \/ a[6] = None])
                    ELSE Message(b, k, e, acc)

Or(x, default) == IF x = None THEN default ELSE x[1]
\* What the bytes from i to e say: a collection, or Bad.
Decode(b, i, e) ==
  LET m == Message(b, i, e, Start)
  IN  IF m.bad \/ m.missing \/ m.span[2] = None \/ m.span[3] = None THEN Bad
      ELSE [bad |-> FALSE, t |-> m.span[2][1], s |-> m.span[3][1], p |-> Or(m.span[4], Zero8),
            anns |-> [j \in 1..Len(m.anns) |-> [k |-> m.anns[j][6][1], v |-> Or(m.anns[j][7], <<>>)]]]

\* The first message of the stream b from position i on:
\*  "msg" with the collection and the position after it, "more" if the stream
\*  ends before the message does, "bad" if no continuation can make it valid.
First(b, i) ==
  LET x == Varint(b, i, Len(b))
  IN  IF x.n = 0 THEN [r |-> IF x.more THEN "more" ELSE "bad"]
      ELSE IF x.v > MaxMessage THEN [r |-> "bad"]
      ELSE IF i + x.n - 1 + x.v > Len(b) THEN [r |-> "more"]
      ELSE LET m == Decode(b, i + x.n, i + x.n - 1 + x.v)
           IN  IF m = Bad THEN [r |-> "bad"]
               ELSE [r |-> "msg", m |-> m, next |-> i + x.n + x.v]

\* ------------------------------------------------------------ encoding
RECURSIVE EncVarint(_)
EncVarint(v) == IF v < 128 THEN <<v>> ELSE <<128 + (v % 128)>> \o EncVarint(v \div 128)
EncTag(f, w) == EncVarint(8 * f + w)
EncBytes(f, s) == EncTag(f, 2) \o EncVarint(Len(s)) \o s
EncAnn(a) == EncTag(5, 3) \o EncBytes(6, a.k) \o EncBytes(7, a.v) \o EncTag(5, 4)
RECURSIVE EncAnns(_)
EncAnns(as) == IF as = <<>> THEN <<>> ELSE EncAnn(Head(as)) \o EncAnns(Tail(as))
Encode(m) == LET body == EncTag(1, 3) \o EncTag(2, 1) \o m.t \o EncTag(3, 1) \o m.s \o EncTag(4, 1) \o m.p \o EncTag(1, 4)
                         \o EncAnns(m.anns)
             IN  EncVarint(Len(body)) \o body
=============================================================================
