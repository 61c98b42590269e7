------------------------------- MODULE IdsTrace -------------------------------
(* Recorded generation of span IDs (IDs are numbered in the order in which *)
(* they are met).  root id / child par id / rec par id: span IDs made (the *)
(* last one by a recorder).  bulk n new linked: n IDs made by several      *)
(* callers and processes, how many of them were not met before, and        *)
(* whether every span ID belonged to its parent.                           *)
EXTENDS Ids, TraceLib
VARIABLES tid, l, used
vars == <<tid, l, used>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Init == tid \in 1..Len(Tr) /\ l = 1 /\ used = {}
DoRoot == Ev.op = "root" /\ Root(used, Ev.id) /\ used' = RootUsed(used, Ev.id)
DoChild == Ev.op = "child" /\ Child(used, Ev.par, Ev.id) /\ used' = ChildUsed(used, Ev.id)
Bulk == Ev.op = "bulk" /\ Ev.n = Ev.new /\ Ev.linked /\ UNCHANGED used
Next == /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ (DoRoot \/ DoChild \/ Bulk)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
