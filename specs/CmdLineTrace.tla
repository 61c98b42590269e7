----------------------------- MODULE CmdLineTrace -----------------------------
(* send kind k rc v kept: k send commands at the same time (or the sample  *)
(* data of serve), how they ended and what the server shows then and did   *)
(* not before.  age: see CmdLine.                                          *)
EXTENDS CmdLine, TraceLib
VARIABLES tid, l
vars == <<tid, l>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Init == tid \in 1..Len(Tr) /\ l = 1
Send == Ev.op = "send" /\ TRUE = Sent(Ev.kind, Tr[tid].cfg.tls, Ev.k, Ev.rc, Ev.v, Ev.kept)
Age == Ev.op = "age" /\ Aged(Ev.d, Ev.t, Ev.then, Ev.now, Ev.gap, Ev.there)
Next == /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ (Send \/ Age)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
