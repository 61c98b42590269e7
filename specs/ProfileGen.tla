------------------------------ MODULE ProfileGen ------------------------------
(* All small trees with names and durations: spans [parent, name, half     *)
(* milliseconds of its timespan events...].                                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, Names, Durs, Twice
VARIABLES sp
Evs == {<<>>} \cup {<<d>> : d \in Durs} \cup (IF Twice THEN {<<d, e>> : d \in Durs, e \in Durs} ELSE {})
Init == \E nm \in Names, v \in Evs : sp = <<<<0, nm>> \o v>>
Next == /\ Len(sp) < N /\ \E p \in 1..Len(sp), nm \in Names, v \in Evs : sp' = Append(sp, <<p, nm>> \o v)
Spec == Init /\ [][Next]_sp
Emit == Len(sp) = N => PrintT("@@S " \o ToJson([spans |-> sp]))
=============================================================================
