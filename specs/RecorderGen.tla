----------------------------- MODULE RecorderGen -----------------------------
(* Operations on a recorder (1) and a child of it (2, once created by C).  *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Ops, N, Both
VARIABLES ops, kids
Init == ops = <<>> /\ kids = 0
Next == /\ Len(ops) < N
        /\ \E o \in Ops, k \in 1..2 :
              /\ k <= 1 + kids
              /\ o = "C" => (Both /\ k = 1 /\ kids = 0)
              /\ ops' = Append(ops, [o |-> o, k |-> k])
              /\ kids' = IF o = "C" THEN 1 ELSE kids
Spec == Init /\ [][Next]_<<ops, kids>>
Emit == Len(ops) = N => PrintT("@@S " \o ToJson([ops |-> ops]))
=============================================================================
