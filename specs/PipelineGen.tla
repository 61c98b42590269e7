------------------------------ MODULE PipelineGen ------------------------------
(* Every sequence of N steps of clients 1 and 2: [o, c, q]: finish a span    *)
(* (o = "f") below the q-th (0: a root; -q: another piece of the q-th        *)
(* span), flush ("F"), query ("q"), the server comes up ("U").               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Faults
VARIABLE p
Fins == Len(SelectSeq(p, LAMBDA x : x.o = "f"))
Steps == {[o |-> "f", c |-> c, q |-> q] : c \in {1, 2}, q \in (-Fins)..Fins}
         \cup {[o |-> "F", c |-> c, q |-> 0] : c \in {1, 2}}
         \cup (IF Faults THEN {[o |-> "U", c |-> 0, q |-> 0]} ELSE {[o |-> "q", c |-> 0, q |-> 0]})
Init == p = <<>>
Next == Len(p) < N /\ \E s \in Steps : p' = Append(p, s)
Spec == Init /\ [][Next]_p
Emit == Len(p) = N => PrintT("@@S " \o ToJson(p))
=============================================================================
