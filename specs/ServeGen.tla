------------------------------- MODULE ServeGen -------------------------------
(* Every sequence of N steps: packets sent (s) or sent and seen (v), saves  *)
(* awaited (w), kills (k) and kills some time into a save (m).              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Steps
VARIABLE p
Init == p = <<>>
Next == Len(p) < N /\ \E s \in Steps : p' = Append(p, s)
Spec == Init /\ [][Next]_p
Emit == Len(p) = N => PrintT("@@S " \o ToJson(p))
=============================================================================
