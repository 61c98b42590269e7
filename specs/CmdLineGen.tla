------------------------------ MODULE CmdLineGen ------------------------------
(* Sequences of sends to a server with or without TLS.                     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, N
VARIABLES tls, sample, kinds
Init == tls \in BOOLEAN /\ sample \in BOOLEAN /\ kinds = <<>>
Next == /\ Len(kinds) < N /\ UNCHANGED <<tls, sample>>
        /\ \E k \in Kinds : kinds' = Append(kinds, k)
Spec == Init /\ [][Next]_<<tls, sample, kinds>>
Emit == (Len(kinds) = N) => PrintT("@@S " \o ToJson([tls |-> tls, sample |-> sample, kinds |-> kinds]))
=============================================================================
