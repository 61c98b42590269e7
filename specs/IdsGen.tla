-------------------------------- MODULE IdsGen --------------------------------
(* Every way to make N span IDs: by which caller, and below which of those *)
(* made before (0: a root).                                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Callers
VARIABLE p
Init == p = <<>>
Next == Len(p) < N /\ \E c \in Callers, q \in 0..Len(p) : p' = Append(p, [c |-> c, q |-> q])
Spec == Init /\ [][Next]_p
Emit == Len(p) = N => PrintT("@@S " \o ToJson(p))
=============================================================================
