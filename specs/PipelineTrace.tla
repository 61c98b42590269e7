----------------------------- MODULE PipelineTrace -----------------------------
(* fb i c t s p a / fe i errs: a recorder of client c finishes piece i, and *)
(* has; errs is the number of its errors.  Fb f c / Fe f err: a flush by     *)
(* hand.  direct: a client without a chunked collector.  q t n: a trace as   *)
(* shown.  end ts: all traces, after everything has arrived.                 *)
EXTENDS Pipeline, TraceLib
VARIABLES tid, l, P, done, sure, may, cover, seen
vars == <<tid, l, P, done, sure, may, cover, seen>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Cfg == Tr[tid].cfg
Set(s) == {s[i] : i \in DOMAIN s}
Init == /\ tid \in 1..Len(Tr) /\ l = 1 /\ P = <<>> /\ done = {} /\ sure = {} /\ may = {}
        /\ cover = [f \in {} |-> {}] /\ seen = [t \in {} |-> {}]
FinB == /\ Ev.op = "fb" /\ Ev.i \notin DOMAIN P
        /\ P' = (Ev.i :> [t |-> Ev.t, s |-> Ev.s, p |-> Ev.p, a |-> Ev.a, c |-> Ev.c]) @@ P
        /\ UNCHANGED <<done, sure, may, cover, seen>>
FinE == /\ Ev.op = "fe" /\ Ev.errs = 0 /\ done' = done \cup {Ev.i}
        /\ sure' = IF P[Ev.i].c \in Set(Cfg.direct) THEN sure \cup {Ev.i} ELSE sure
        /\ UNCHANGED <<P, may, cover, seen>>
FluB == /\ Ev.op = "Fb" /\ cover' = (Ev.f :> {k \in done : P[k].c = Ev.c}) @@ cover /\ UNCHANGED <<P, done, sure, may, seen>>
FluE == /\ Ev.op = "Fe"
        /\ IF Ev.err THEN Cfg.faults /\ may' = may \cup (cover[Ev.f] \ sure) /\ UNCHANGED sure
           ELSE sure' = sure \cup (cover[Ev.f] \ may) /\ UNCHANGED may
        /\ UNCHANGED <<P, done, cover, seen>>
Of(t) == {k \in DOMAIN P : P[k].t = t}
Span(t, s) == {k \in Of(t) : P[k].s = s}
Once(n) == Cardinality({n[i].s : i \in DOMAIN n}) = Len(n)
Query == /\ Ev.op = "q" /\ Once(Ev.n)
         /\ \A i \in DOMAIN Ev.n : LET x == Ev.n[i] IN
              /\ Span(Ev.t, x.s) # {} /\ \A k \in Span(Ev.t, x.s) : P[k].p = x.p
              /\ Within(x.a, P, Span(Ev.t, x.s))
         \* what was seen of a trace stays
         /\ LET now == UNION {{<<x.s, v, k>> : v \in Set(x.a), k \in 1..1} : x \in Set(Ev.n)}
                old == IF Ev.t \in DOMAIN seen THEN seen[Ev.t] ELSE {}
            IN  old \subseteq now /\ seen' = (Ev.t :> now) @@ seen
         /\ UNCHANGED <<P, done, sure, may, cover>>
End == /\ Ev.op = "end" /\ DOMAIN P = sure \cup may
       /\ \A t \in 1..Len(Ev.ts) : LET n == Ev.ts[t] IN
            /\ Once(n)
            /\ {P[k].s : k \in Of(t) \cap sure} \subseteq {n[i].s : i \in DOMAIN n}
            /\ \A i \in DOMAIN n : LET x == n[i] IN
                 /\ x.t = t /\ \E k \in Of(t) : P[k].s = x.s /\ P[k].p = x.p
                 /\ \E M \in SUBSET (may \cap Span(t, x.s)) : Holds(x.a, P, M \cup (sure \cap Span(t, x.s)))
                 /\ LET up == Up(Set(n), x) IN up = -1 \/ x.u = up
            /\ Cardinality({i \in DOMAIN n : n[i].u = 0}) <= 1
       /\ Ev.all = Cardinality({t \in DOMAIN Ev.ts : Ev.ts[t] # <<>>})
       /\ UNCHANGED <<P, done, sure, may, cover, seen>>
Next == /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ (FinB \/ FinE \/ FluB \/ FluE \/ Query \/ End)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
