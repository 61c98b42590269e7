------------------------------- MODULE Redact -------------------------------
(***************************************************************************)
(* What is recorded of header fields.  A field is [n, v]: its name (byte   *)
(* values) and its values.  Names are compared without regard to case; a   *)
(* response header named Trailer:x is the trailer x.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Fold(n) == [i \in DOMAIN n |-> Lower(n[i])]
TrailerPrefix == <<84, 114, 97, 105, 108, 101, 114, 58>>
Strip(n) == IF Len(n) > 8 /\ SubSeq(n, 1, 8) = TrailerPrefix THEN SubSeq(n, 9, Len(n)) ELSE n
Redacted(n, list) == \E r \in list : Fold(r) \in {Fold(n), Fold(Strip(n))}
RedactedIn(fields, f, list) == \E i \in DOMAIN fields : Fold(fields[i].n) = f /\ Redacted(fields[i].n, list)
Replacement == "REDACTED"

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
\* all values of the fields with a name, in the order of the fields
Values(fields, f) == Flat([i \in DOMAIN fields |-> IF Fold(fields[i].n) = f THEN fields[i].v ELSE <<>>])
Names(fields) == {Fold(fields[i].n) : i \in DOMAIN fields}
\* no values and empty values can look the same
NotEmpty(v) == v # ""
Some(v) == SelectSeq(v, NotEmpty)

\* out (fields, with the recorded text taken apart at its commas) records
\* the fields; extra are names that were added by tracing itself
Records(out, fields, list, extra) ==
    /\ Names(fields) \subseteq Names(out)
    /\ Names(out) \subseteq (Names(fields) \cup extra)
    /\ \A i \in DOMAIN out : Redacted(out[i].n, list) =>
          \/ out[i].v = <<Replacement>>
          \/ Some(out[i].v) = <<>> /\ Values(fields, Fold(out[i].n)) = <<>>
    /\ \A f \in Names(fields) : (~RedactedIn(fields, f, list)) => SameBag(Some(Values(out, f)), Some(Values(fields, f)))
=============================================================================
