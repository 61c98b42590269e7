---------------------------- MODULE TraceViewGen ----------------------------
(* All trees of N spans with IDs in 1..I, and all sets of up to E timed    *)
(* events of the first span.                                               *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, I, E, M
VARIABLES up, id, t
Init == up = <<0>> /\ id \in {<<i>> : i \in 1..I} /\ t = <<>>
Add == /\ Len(up) < N /\ UNCHANGED t
       /\ \E u \in 1..Len(up), i \in 1..I : up' = Append(up, u) /\ id' = Append(id, i)
Time == /\ Len(up) = N /\ Len(t) < E /\ UNCHANGED <<up, id>>
        /\ \E s \in 0..M, e \in 0..M : t' = Append(t, <<s, e>>)
Next == Add \/ Time
Spec == Init /\ [][Next]_<<up, id, t>>
Emit == (Len(up) = N /\ (Len(t) = E \/ N = 1)) => PrintT("@@S " \o ToJson([up |-> up, id |-> id, t |-> t]))
=============================================================================
