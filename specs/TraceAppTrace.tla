----------------------------- MODULE TraceAppTrace -----------------------------
(* col i t n: spans were collected into instance i, whose trace t then has *)
(* the spans n.  exp i t docs: what it shows as trace t (0: all traces).   *)
(* up i docs bad st: an upload and how it was answered.  open i docs bad   *)
(* st shown: a permalink.  par i docs st: several uploads at the same      *)
(* time.  flt: an upload to a store that fails.  obs has: what the stores  *)
(* have.                                                                   *)
EXTENDS TraceApp, TraceLib
VARIABLES tid, l, inst
vars == <<tid, l, inst>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Set(s) == {s[i] : i \in DOMAIN s}
\* as long as its root is missing, where the spans of a trace hang may depend
\* on the order in which they came
Spans(n) == IF \E x \in Set(n) : x.p = 0 THEN Set(n) ELSE {[x EXCEPT !.u = 0] : x \in Set(n)}
Doc(d) == [t |-> d.t, n |-> Spans(d.n)]
Docs(ds) == [i \in DOMAIN ds |-> Doc(ds[i])]
Once(n) == Len(n) = Cardinality(Set(n))
Init == /\ tid \in 1..Len(Tr) /\ l = 1
        /\ inst = [i \in 1..Tr[tid].cfg.insts |-> [t \in 1..Tr[tid].cfg.traces |-> {}]]
Collect == /\ Ev.op = "col" /\ Once(Ev.n) /\ inst' = [inst EXCEPT ![Ev.i][Ev.t] = Spans(Ev.n)]
Export == /\ Ev.op = "exp" /\ UNCHANGED inst
          /\ \A k \in DOMAIN Ev.docs : Once(Ev.docs[k].n)
          /\ IF Ev.t # 0 THEN Docs(Ev.docs) = <<[t |-> Ev.t, n |-> inst[Ev.i][Ev.t]]>>
             ELSE /\ Once(Docs(Ev.docs))
                  /\ Set(Docs(Ev.docs)) = {[t |-> t, n |-> inst[Ev.i][t]] : t \in {u \in DOMAIN inst[Ev.i] : inst[Ev.i][u] # {}}}
Upload == /\ Ev.op = "up" /\ Ev.st = (IF Ev.bad THEN "err" ELSE "ok")
          /\ inst' = [inst EXCEPT ![Ev.i] = Result(@, Docs(Ev.docs), Ev.bad)]
Open == /\ Ev.op = "open" /\ Ev.st = (IF Ev.bad THEN "err" ELSE "ok")
        /\ inst' = [inst EXCEPT ![Ev.i] = Result(@, Docs(Ev.docs), Ev.bad)]
        /\ ~Ev.bad => /\ Once(Ev.shown.n)
                      /\ Doc(Ev.shown) = [t |-> Ev.docs[1].t, n |-> inst'[Ev.i][Ev.docs[1].t]]
Par == /\ Ev.op = "par" /\ \A k \in DOMAIN Ev.st : Ev.st[k] = "ok"
       /\ \A t \in DOMAIN Ev.has : Once(Ev.has[t])
       /\ LET new == [t \in DOMAIN inst[Ev.i] |-> Spans(Ev.has[t])]
          IN  Fits(inst[Ev.i], Set(Docs(Ev.docs)), new) /\ inst' = [inst EXCEPT ![Ev.i] = new]
Faulty == /\ Ev.op = "flt" /\ \A t \in DOMAIN Ev.has : Ev.hit \/ Once(Ev.has[t])
          /\ LET new == [t \in DOMAIN inst[Ev.i] |-> Spans(Ev.has[t])]
             IN  TRUE = Weathered(inst[Ev.i], Docs(Ev.docs), Set(Ev.look), Ev.hit, Ev.st = "ok", new) /\ inst' = [inst EXCEPT ![Ev.i] = new]
Obs == /\ Ev.op = "obs" /\ UNCHANGED inst
       /\ \A i \in DOMAIN inst : \A t \in DOMAIN inst[i] : Once(Ev.has[i][t]) /\ Spans(Ev.has[i][t]) = inst[i][t]
Next == /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ (Collect \/ Export \/ Upload \/ Open \/ Par \/ Faulty \/ Obs)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
