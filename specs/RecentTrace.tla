----------------------------- MODULE RecentTrace -----------------------------
EXTENDS Recent, TraceLib
VARIABLES tid, l,
          st, pass,          \* sequential histories
          open, first        \* concurrent histories: calls under way, first seen
vars == <<tid, l, st, pass, open, first>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Min == Tr[tid].cfg.min

Init == /\ tid \in 1..Len(Tr) /\ l = 1
        /\ st = EmptyFun /\ pass = Never /\ open = {} /\ first = EmptyFun

SetOf(s) == {s[i] : i \in 1..Len(s)}

\* a collection, with what the underlying store holds afterwards
E_c == /\ Ev.op = "c" /\ Ev.passed /\ Ev.err = Ev.want
       /\ \E o \in Outcomes(st, pass, Ev.now, Min, Ev.t, IF Ev.err = "" THEN <<Ev.a>> ELSE <<>>) :
             /\ Ev.look => {<<Ev.held[i].t, Ev.held[i].a>> : i \in 1..Len(Ev.held)} = View(o.st)
             /\ st' = o.st /\ pass' = o.pass
       /\ UNCHANGED <<open, first>>

\* traces are deleted on request
E_x == /\ Ev.op = "x" /\ Ev.err = ""
       /\ st' = Without(st, SetOf(Ev.ids))
       /\ {<<Ev.held[i].t, Ev.held[i].a>> : i \in 1..Len(Ev.held)} = View(st')
       /\ UNCHANGED <<pass, open, first>>

Min2(a, b) == IF a < b THEN a ELSE b
\* concurrent: a call begins
E_b == /\ Ev.op = "b"
       /\ open' = open \cup {[i |-> Ev.i, t |-> Ev.t, at |-> Ev.now, end |-> -1]}
       /\ first' = IF Ev.t \in DOMAIN first THEN first ELSE (Ev.t :> Ev.now) @@ first
       /\ UNCHANGED <<st, pass>>
\* traces are deleted; a collection under way, or just over, may already have come after the
\* decision to evict its trace, so it may be the one that is seen first again
E_d == /\ Ev.op = "d"
       /\ \A t \in SetOf(Ev.ids) : t \in DOMAIN first /\ Ev.now - first[t] >= Min
       /\ first' = LET near == {o \in open : o.end = -1 \/ o.end = Ev.now}
                       again == {x \in SetOf(Ev.ids) : \E o \in near : o.t = x}
                       f(x) == IF x \in again
                               THEN CHOOSE v \in {o.at : o \in near} :
                                       /\ \E o \in near : o.t = x /\ o.at = v
                                       /\ \A o \in near : o.t = x => o.at >= v
                               ELSE first[x]
                   IN  [x \in (DOMAIN first \ SetOf(Ev.ids)) \cup again |-> f(x)]
       /\ UNCHANGED <<st, pass, open>>
E_e == /\ Ev.op = "e" /\ Ev.err = "" /\ Ev.passed
       /\ open' = {IF o.i = Ev.i THEN [o EXCEPT !.end = Ev.now] ELSE o : o \in {x \in open : x.end = -1 \/ x.end = Ev.now}}
       /\ UNCHANGED <<st, pass, first>>
\* collections have kept arriving and everything from before is old
E_z == /\ Ev.op = "z" /\ \A o \in open : o.end # -1
       /\ {Ev.held[i].t : i \in 1..Len(Ev.held)} \subseteq SetOf(Ev.fresh)
       /\ UNCHANGED <<st, pass, open, first>>

Next == /\ l <= Len(Tr[tid].ev)
        /\ (E_c \/ E_x \/ E_b \/ E_d \/ E_e \/ E_z)
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
