------------------------------ MODULE RemoteGen ------------------------------
(* Calls (C small, B big), faults between them (K the connection breaks,    *)
(* T the listener goes down or comes up, X the collector is closed), and    *)
(* after how many bytes the first connections break (a great number: never).    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ops, N, Kills, M
VARIABLES ops, kills
Init == ops = <<>> /\ kills \in [1..M -> Kills]
Next == Len(ops) < N /\ \E o \in Ops : ops' = Append(ops, o) /\ UNCHANGED kills
Spec == Init /\ [][Next]_<<ops, kills>>
Emit == Len(ops) = N => PrintT("@@S " \o ToJson([ops |-> ops, kills |-> kills]))
=============================================================================
