----------------------------- MODULE MultiTrace -----------------------------
(* col t a err: a was collected for trace t into the combined store.  pre p*)
(* t a: into one part.  flt p k e: a part starts or stops failing.  look t *)
(* err v, list want err v: what the combined store and querier answer.     *)
(* parts: what the parts have.                                             *)
EXTENDS Multi, TraceLib
VARIABLES tid, l, parts
vars == <<tid, l, parts>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Set(s) == {s[i] : i \in DOMAIN s}
\* "": a span was collected without an annotation
Shown(v) == SelectSeq(v, LAMBDA a : a # "")
Init == /\ tid \in 1..Len(Tr) /\ l = 1
        /\ parts = [i \in 1..Tr[tid].cfg.n |-> [has |-> [t \in 1..Tr[tid].cfg.traces |-> <<>>], c |-> "", t |-> "", l |-> ""]]
Collect == /\ Ev.op = "col" /\ Ev.err = CollectErr(parts) /\ parts' = Collected(parts, Ev.t, Ev.a)
Direct == /\ Ev.op = "pre" /\ parts' = [parts EXCEPT ![Ev.p] = Put(@, Ev.t, Ev.a)]
Fault == /\ Ev.op = "flt"
         /\ parts' = CASE Ev.k = "c" -> [parts EXCEPT ![Ev.p].c = Ev.e]
                       [] Ev.k = "t" -> [parts EXCEPT ![Ev.p].t = Ev.e]
                       [] Ev.k = "l" -> [parts EXCEPT ![Ev.p].l = Ev.e]
Look == /\ Ev.op = "look" /\ UNCHANGED parts
        /\ LET r == Lookup(parts, Ev.t) IN Ev.err = r.err /\ Ev.v = Shown(r.v)
Listed == /\ Ev.op = "list" /\ UNCHANGED parts
          /\ LET r == List(parts, Set(Ev.want)) IN Ev.err = r.err /\ Set(Ev.v) = {[x EXCEPT !.v = Shown(@)] : x \in r.v} /\ Len(Ev.v) = Cardinality(r.v)
Parts == /\ Ev.op = "parts" /\ UNCHANGED parts
         /\ \A i \in DOMAIN parts : \A t \in DOMAIN parts[i].has :
             Ev.has[i][t] = IF parts[i].has[t] = <<>> THEN <<>> ELSE <<"">> \o Shown(parts[i].has[t])
Next == /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ (Collect \/ Direct \/ Fault \/ Look \/ Listed \/ Parts)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
