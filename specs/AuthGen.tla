------------------------------- MODULE AuthGen -------------------------------
(* Every sequence of N requests, each [k, c, n]: what is asked for, with    *)
(* which kind of credentials, and on which connection.                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Kinds, Creds, Conns
VARIABLE p
Init == p = <<>>
Next == Len(p) < N /\ \E k \in Kinds, c \in Creds, n \in Conns : p' = Append(p, [k |-> k, c |-> c, n |-> n])
Spec == Init /\ [][Next]_p
Emit == Len(p) = N => PrintT("@@S " \o ToJson(p))
=============================================================================
