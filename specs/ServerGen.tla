------------------------------ MODULE ServerGen ------------------------------
(* What up to C clients send: kinds of items, and how the connection ends. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, Ends, C, N
VARIABLES cs
Item == Kinds
Seqs == UNION {[1..n -> Kinds] : n \in 0..N}
Init == cs = <<>>
Next == Len(cs) < C /\ \E s \in Seqs, e \in Ends : cs' = Append(cs, [k |-> s, e |-> e])
Spec == Init /\ [][Next]_cs
Emit == Len(cs) = C => PrintT("@@S " \o ToJson([c |-> cs]))
=============================================================================
