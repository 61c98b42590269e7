------------------------------ MODULE MultiGen ------------------------------
(* Operations on a combined store and its parts.                           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Parts, Traces, N
VARIABLES n, ops
Op(o, p, t, k) == [o |-> o, p |-> p, t |-> t, k |-> k]
Init == n \in Parts /\ ops = <<>>
Next == /\ Len(ops) < N /\ UNCHANGED n
        /\ \/ \E t \in Traces : ops' = Append(ops, Op("col", 0, t, ""))
           \/ \E p \in 1..n, t \in Traces : ops' = Append(ops, Op("pre", p, t, ""))
           \/ \E p \in 1..n, k \in {"c", "t", "l"} : ops' = Append(ops, Op("flt", p, 0, k))
Spec == Init /\ [][Next]_<<n, ops>>
Emit == Len(ops) = N => PrintT("@@S " \o ToJson([n |-> n, ops |-> ops]))
=============================================================================
