---------------------------- MODULE DeliverTrace ----------------------------
(***************************************************************************)
(* Recorded runs of remote collectors with the real collection server, on  *)
(* connections that stay up: every call's message arrives once, as it was  *)
(* given, and calls of one client arrive in the order in which they were   *)
(* made (a call that had returned before another was made precedes it).    *)
(***************************************************************************)
EXTENDS Integers, TraceLib
VARIABLES tid, l, und, open, done
vars == <<tid, l, und, open, done>>
Tr == Recorded
Ev == Tr[tid].ev[l]
\* und: calls that have not arrived: i -> [c, m, before]; open: calls under way
Init == tid \in 1..Len(Tr) /\ l = 1 /\ und = [i \in {} |-> 0] /\ open = {} /\ done = {}
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Next ==
    /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
    /\ CASE Ev.op = "cc" -> /\ und' = (Ev.i :> [c |-> Ev.c, m |-> Ev.m,
                                  before |-> {j \in DOMAIN und : und[j].c = Ev.c /\ j \notin open}]) @@ und
                            /\ open' = open \cup {Ev.i} /\ UNCHANGED done
         [] Ev.op = "cr" -> /\ Ev.err = "" /\ open' = open \ {Ev.i} /\ UNCHANGED <<und, done>>
         [] Ev.op = "sv" -> /\ \E i \in DOMAIN und :
                                 /\ und[i].m = Ev.m
                                 /\ und[i].before \cap DOMAIN und = {}
                                 /\ und' = Without(und, i) /\ done' = done \cup {i}
                            /\ UNCHANGED open
         [] Ev.op = "z" -> und = [i \in {} |-> 0] /\ UNCHANGED <<und, open, done>>
         [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
