----------------------------- MODULE RedactTrace -----------------------------
(* rec list fields extra out intact leaks: these header fields of a message *)
(* were recorded as out, extra being the names that tracing adds; the      *)
(* message afterwards is as it was (intact), and the values of redacted    *)
(* fields were found leaks times in all that was recorded.                 *)
EXTENDS Redact, TraceLib
VARIABLES tid, l
vars == <<tid, l>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Init == tid \in 1..Len(Tr) /\ l = 1
Set(s) == {s[i] : i \in DOMAIN s}
Next ==
    /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
    /\ Ev.op = "rec" /\ Ev.intact /\ Ev.leaks = 0
    /\ Records(Ev.out, Ev.fields, Set(Ev.list), {Fold(n) : n \in Set(Ev.extra)})
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
