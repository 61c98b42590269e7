------------------------------ MODULE TraceAppMC ------------------------------
(* Histories of collecting, exporting, uploading and opening over several  *)
(* instances.  A trace's content is a set of versions (numbers) collected. *)
EXTENDS TraceApp
CONSTANTS Inst, Traces, MaxOps
VARIABLES inst, docs, born, n
vars == <<inst, docs, born, n>>
Init == /\ inst = [i \in Inst |-> [t \in Traces |-> {}]] /\ docs = {} /\ n = 0
        /\ born = {}                  \* documents that collecting has made
Collect(i, t) == /\ inst' = [inst EXCEPT ![i][t] = @ \cup {n}]
                 /\ born' = born \cup {[t |-> t, n |-> inst[i][t] \cup {n}]} /\ UNCHANGED docs
Export(i, t) == inst[i][t] # {} /\ docs' = docs \cup {[t |-> t, n |-> inst[i][t]]} /\ UNCHANGED <<inst, born>>
Upload(i, s, bad) == inst' = [inst EXCEPT ![i] = Result(@, s, bad)] /\ UNCHANGED <<docs, born>>
Uploads == {<<d>> : d \in docs} \cup {<<d, e>> : d \in docs, e \in docs}
Par(i) == \E S \in SUBSET docs : /\ Cardinality(S) \in 2..3
                                 /\ \E r \in Mixed(inst[i], S) : inst' = [inst EXCEPT ![i] = r]
                                 /\ UNCHANGED <<docs, born>>
Up(i) == \E s \in Uploads, b \in BOOLEAN : Upload(i, s, b)
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E i \in Inst : (\E t \in Traces : Collect(i, t) \/ Export(i, t)) \/ Up(i) \/ Par(i)
Spec == Init /\ [][Next]_vars
\* every trace anywhere is one that was collected, with the very content of
\* some moment: nothing is mixed and nothing is invented (as long as nothing is
\* collected into the copies)
Genuine == \A i \in Inst, t \in Traces : inst[i][t] # {} => [t |-> t, n |-> inst[i][t]] \in born
DocsGenuine == docs \subseteq born
\* uploading alters nothing that is there
Keeps == [][\A i \in Inst : (Up(i) \/ Par(i)) => \A j \in Inst, t \in Traces : inst[j][t] # {} => inst'[j][t] = inst[j][t]]_vars
\* and stores all the rest
Stores == [][\A i \in Inst, s \in Uploads : Upload(i, s, FALSE) => \A k \in DOMAIN s : inst'[i][s[k].t] # {}]_vars
\* the outcomes of concurrent uploads are those of one after another
ParIsSome == \A i \in Inst : \A S \in SUBSET docs : Cardinality(S) \in 1..2 =>
    {Uploaded(inst[i], s) : s \in {q \in Uploads : {q[k] : k \in DOMAIN q} = S}} \subseteq Mixed(inst[i], S)
FitsIsMixed == \A i \in Inst : \A S \in SUBSET docs : Cardinality(S) <= 2 => \A r \in Mixed(inst[i], S) : Fits(inst[i], S, r)
=============================================================================
