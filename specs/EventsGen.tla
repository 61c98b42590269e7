------------------------------ MODULE EventsGen ------------------------------
(* Events of two fields: their kinds, names, how much is in each and how   *)
(* many other annotations there are.                                       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, Pats, Ps, Strays
VARIABLES s
Init == \E a, b \in Kinds, n \in Pats, p, q \in Ps, x \in Strays :
            s = [t |-> "ev_" \o a \o "_" \o b \o "_" \o ToString(n), p |-> <<p, q>>, stray |-> x]
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT("@@S " \o ToJson(s))
=============================================================================
