------------------------------ MODULE RecentGen ------------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps, K, N   \* possible waits, traces, length
VARIABLES ops
Init == ops = <<>>
Used == {ops[i].t : i \in 1..Len(ops)}
Next == /\ Len(ops) < N
        /\ \E t \in 1..K, d \in Steps :
              /\ t <= Cardinality(Used) + 1
              /\ ops' = Append(ops, [t |-> t, d |-> d])
Spec == Init /\ [][Next]_ops
Emit == Len(ops) = N => PrintT("@@S " \o ToJson(ops))
=============================================================================
