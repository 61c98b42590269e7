----------------------------- MODULE PersistGen -----------------------------
(* Plans: per save the number of chunks, the virtual pause after each, and *)
(* the chunk at which it fails (0: it does not); collections between.      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxSaves
VARIABLES p
Save == [chunks : {1, 3}, pause : {0, 2, 7}, fail : {0}, add : {0, 2}]
Last == [chunks : {1, 3}, pause : {0, 2, 7}, fail : {1, 2, 4}, add : {1}]
Init == p = <<>>
Next == /\ Len(p) < MaxSaves
        /\ (Len(p) > 0 => p[Len(p)].fail = 0)
        /\ \E s \in Save \cup Last : p' = Append(p, s)
Spec == Init /\ [][Next]_p
Emit == Len(p) > 0 => PrintT("@@S " \o ToJson(p))
=============================================================================
