---------------------------- MODULE SpanTextGen ----------------------------
(* Texts put together from tokens, as the two headers of a request.        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Tokens, N, Headers
VARIABLES a, b
Init == a = <<>> /\ b \in (IF Headers = {} THEN {"none"} ELSE Headers)
Next == \E t \in Tokens : Len(a) < N /\ a' = Append(a, t) /\ UNCHANGED b
Spec == Init /\ [][Next]_<<a, b>>
Emit == PrintT("@@S " \o ToJson([a |-> a, b |-> b]))
=============================================================================
