------------------------------ MODULE RecentMC ------------------------------
(* The bookkeeping of the code refines Recent; a trace never outlives the  *)
(* bound while collections arrive.                                         *)
EXTENDS Recent
CONSTANTS Min, Traces, Horizon, MaxStep
VARIABLES now, st, pass,
          created,  \* implementation: trace -> time
          gone      \* traces deleted by the last step, with their age
vars == <<now, st, pass, created, gone>>

Init == now = 0 /\ st = EmptyFun /\ pass = Never /\ created = EmptyFun /\ gone = {}

\* the algorithm: store, record, evict what is too old
Step(t, d) ==
    /\ now + d <= Horizon
    /\ now' = now + d
    /\ LET c1 == IF t \in DOMAIN created THEN created ELSE (t :> (now + d)) @@ created
           due == pass = Never \/ (now + d) - pass > Min
           keep == {y \in DOMAIN c1 : ~due \/ c1[y] >= (now + d) - Min}
       IN  /\ created' = [x \in keep |-> c1[x]]
           /\ pass' = (IF due THEN now + d ELSE pass)
           /\ gone' = {<<x, (now + d) - c1[x]>> : x \in DOMAIN c1 \ keep}
           /\ \E o \in Outcomes(st, pass, now + d, Min, t, <<>>) :
                 /\ o.pass = pass' /\ DOMAIN o.st = keep
                 /\ \A x \in keep : o.st[x].first = c1[x]
                 /\ st' = o.st

\* a trace is deleted on request: it is forgotten, too
Forget(t) == /\ created' = Without(created, {t}) /\ st' = Without(st, {t})
             /\ gone' = {} /\ UNCHANGED <<now, pass>>

Next == \/ \E t \in Traces : Forget(t)
        \/ \E t \in Traces, d \in 0..MaxStep : Step(t, d)
Spec == Init /\ [][Next]_vars

Tracks == /\ DOMAIN created = DOMAIN st
          /\ \A x \in DOMAIN st : st[x].first = created[x]
NotTooYoung == \A g \in gone : g[2] >= Min
\* nothing is older than two ages plus the longest gap between collections
Bounded == \A x \in DOMAIN st : now - st[x].first <= 2 * Min + MaxStep
\* the specification never rules out what the algorithm does
Never_Stuck == [][\A t \in Traces, d \in 0..MaxStep : now + d <= Horizon => ENABLED Step(t, d)]_vars
=============================================================================
