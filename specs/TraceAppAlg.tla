------------------------------ MODULE TraceAppAlg ------------------------------
(* How an upload stores its documents: it looks whether there is a trace   *)
(* with the ID, and if not collects the document span by span.  Uploads    *)
(* run at the same time; with Locked one waits for the other.  Without it  *)
(* (TraceAppAlgX.cfg) NoMix fails, as the code did before its repair.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Traces, Spans, Locked
\* a document of version v of trace t; process p uploads a sequence of them
VARIABLES store, todo, pc, k, lock, prior
vars == <<store, todo, pc, k, lock, prior>>
Versions == 0..Cardinality(Procs)
Lists == {<<a>> : a \in Traces} \cup {<<a, b>> : a \in Traces, b \in Traces}
Init == /\ \E S \in SUBSET Traces : prior = S
        /\ store = [t \in Traces |-> [v \in Versions |-> IF v = 0 /\ t \in prior THEN Spans ELSE 0]]
        /\ todo \in [Procs -> Lists] /\ pc = [p \in Procs |-> "start"] /\ k = [p \in Procs |-> 0] /\ lock = 0
Here(t) == \E v \in Versions : store[t][v] > 0
Start(p) == /\ pc[p] = "start" /\ (Locked => lock = 0)
            /\ lock' = (IF Locked THEN p ELSE lock) /\ pc' = [pc EXCEPT ![p] = "check"] /\ UNCHANGED <<store, todo, k, prior>>
Check(p) == /\ pc[p] = "check" /\ UNCHANGED <<store, prior>>
            /\ IF todo[p] = <<>> THEN pc' = [pc EXCEPT ![p] = "done"] /\ lock' = (IF Locked THEN 0 ELSE lock) /\ UNCHANGED <<todo, k>>
               ELSE IF Here(Head(todo[p])) THEN todo' = [todo EXCEPT ![p] = Tail(@)] /\ UNCHANGED <<pc, k, lock>>
               ELSE pc' = [pc EXCEPT ![p] = "collect"] /\ k' = [k EXCEPT ![p] = Spans] /\ UNCHANGED <<todo, lock>>
Collect(p) == /\ pc[p] = "collect" /\ UNCHANGED <<lock, prior>>
              /\ store' = [store EXCEPT ![Head(todo[p])][p] = @ + 1] /\ k' = [k EXCEPT ![p] = @ - 1]
              /\ IF k[p] = 1 THEN pc' = [pc EXCEPT ![p] = "check"] /\ todo' = [todo EXCEPT ![p] = Tail(@)] ELSE UNCHANGED <<pc, todo>>
Next == \E p \in Procs : Start(p) \/ Check(p) \/ Collect(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Start(p) \/ Check(p) \/ Collect(p))
NoMix == \A t \in Traces : Cardinality({v \in Versions : store[t][v] > 0}) <= 1
Prior == \A t \in prior : store[t] = [v \in Versions |-> IF v = 0 THEN Spans ELSE 0]
Whole == (\A p \in Procs : pc[p] = "done") => \A t \in Traces, v \in Versions : store[t][v] \in {0, Spans}
Ends == <>(\A p \in Procs : pc[p] = "done")
=============================================================================
