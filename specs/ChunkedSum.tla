----------------------------- MODULE ChunkedSum -----------------------------
(* The account at the end of a run in real time: every annotation of every *)
(* collection was passed on exactly once.                                  *)
EXTENDS Naturals, Sequences, TraceLib
VARIABLES tid, l
Tr == Recorded
Ev == Tr[tid].ev[l]
Init == tid \in 1..Len(Tr) /\ l = 1
Next == /\ l <= Len(Tr[tid].ev)
        /\ Ev.op \in {"sum", "one"} /\ Ev.once = Ev.want /\ Ev.all = Ev.want
        /\ Ev.op = "one" => Ev.calls = Ev.spans \* a single flush
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
Report == (l = Len(Tr[tid].ev) + 1 => Done(tid)) /\ At(tid, l)
=============================================================================
