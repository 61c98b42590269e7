---------------------------- MODULE PersistTrace ----------------------------
(***************************************************************************)
(* Recorded runs of PersistEvery.  Versions are numbers of collected       *)
(* annotations; the logged file version is 0 when there is no file and -1  *)
(* when the file is not one complete save.  Times are virtual.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceLib
VARIABLES tid, l,
          store,    \* version of the store
          file,     \* version in the file
          pend,     \* version that may be (or, later, must be) there, or -1
          saving,   \* a save is under way
          begun, ended, \* when the last save began and ended
          failed    \* a save has failed
vars == <<tid, l, store, file, pend, saving, begun, ended, failed>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Cfg == Tr[tid].cfg

Init == /\ tid \in 1..Len(Tr) /\ l = 1
        /\ store = Cfg.store0 /\ file = Cfg.file0 /\ pend = -1 /\ saving = FALSE
        /\ begun = 0 /\ ended = 0 /\ failed = FALSE

E_c == Ev.op = "c" /\ store' = Ev.v /\ UNCHANGED <<file, pend, saving, begun, ended, failed>>

\* a save begins, in time
E_b == /\ Ev.op = "b" /\ ~saving /\ ~failed
       /\ Ev.v = store                             \* what it writes is the store as it is
       /\ Ev.now >= begun + Cfg.interval
       /\ Ev.now <= ended + Cfg.interval
       /\ saving' = TRUE /\ begun' = Ev.now
       /\ UNCHANGED <<store, file, pend, ended, failed>>

\* an observation of the file and of its directory
E_o == /\ Ev.op = "o"
       /\ (~saving /\ ~failed /\ Cfg.timed) => Ev.now <= ended + Cfg.interval
       /\ IF pend # -1 /\ Ev.now > ended
          THEN Ev.f = pend /\ file' = pend /\ pend' = -1
          ELSE \/ Ev.f = file /\ UNCHANGED <<file, pend>>
               \/ pend # -1 /\ Ev.f = pend /\ file' = pend /\ pend' = -1
       /\ (~saving /\ Ev.now > ended) => Ev.stray = 0
       /\ UNCHANGED <<store, saving, begun, ended, failed>>

\* the store has written everything, or failed
E_w == /\ Ev.op = "w" /\ saving
       /\ saving' = FALSE /\ ended' = Ev.now
       /\ failed' = (Ev.err # "" \/ Cfg.norename)
       /\ pend' = (IF Ev.err = "" /\ ~Cfg.norename THEN Ev.v ELSE pend)
       /\ UNCHANGED <<store, file, begun>>

\* PersistEvery returns: exactly on failure, with an error, leaving nothing
E_ret == /\ Ev.op = "ret" /\ (failed \/ Cfg.nodir)
         /\ Ev.err # ""
         /\ Ev.f = file /\ Ev.stray = 0
         /\ UNCHANGED <<store, file, pend, saving, begun, ended, failed>>
\* it has to
E_end == /\ Ev.op = "end"
         /\ Ev.returned = (failed \/ Cfg.nodir)
         /\ UNCHANGED <<store, file, pend, saving, begun, ended, failed>>

\* Sampling from outside, while the process runs and after it was killed:
\* complete versions only, never older ones, never gone
E_s == /\ Ev.op = "s"
       /\ Ev.f >= file /\ Ev.f <= Ev.max
       /\ Ev.f # -1
       /\ file' = Ev.f
       /\ UNCHANGED <<store, pend, saving, begun, ended, failed>>

Next == /\ l <= Len(Tr[tid].ev)
        /\ (E_c \/ E_b \/ E_o \/ E_w \/ E_ret \/ E_end \/ E_s)
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
