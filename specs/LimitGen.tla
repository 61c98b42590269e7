------------------------------ MODULE LimitGen ------------------------------
(* All collect sequences over canonically named traces (each new name is   *)
(* the least unused one).                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Maxes, K, N
VARIABLES max, ops
Init == max \in Maxes /\ ops = <<>>
Used == {ops[i] : i \in 1..Len(ops)}
Next == /\ Len(ops) < N
        /\ \E t \in 1..K : /\ t <= Cardinality(Used) + 1
                           /\ ops' = Append(ops, t)
        /\ UNCHANGED max
Spec == Init /\ [][Next]_<<max, ops>>
Emit == Len(ops) = N => PrintT("@@S " \o ToJson([max |-> max, ops |-> ops]))
=============================================================================
