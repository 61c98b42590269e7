----------------------------- MODULE ProfileTrace -----------------------------
(* set t tr: trace t now is tr.  prof t s st v: the profile of trace t, or *)
(* of its span s.  agg mode sel all bad st v: the aggregate view of the    *)
(* traces selected.  page t s st chart items n links: the page of a trace  *)
(* or span.  list show some st v: the list of traces.  dash: the           *)
(* dashboard's data, for what the aggregator answered.                     *)
EXTENDS Profile, TraceLib
VARIABLES tid, l, st
vars == <<tid, l, st>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Set(s) == {s[i] : i \in DOMAIN s}
Init == /\ tid \in 1..Len(Tr) /\ l = 1 /\ st = [t \in 1..Tr[tid].cfg.traces |-> <<>>]
SetTrace == Ev.op = "set" /\ st' = [st EXCEPT ![Ev.t] = Ev.tr]
\* the trace or part of it asked for; <<>> if there is none
Asked(t, s) == LET tr == st[t]
                   at == {i \in DOMAIN tr : tr[i].s = s}
               IN  IF s = 0 THEN tr ELSE IF at = {} THEN <<>> ELSE Part(tr, CHOOSE i \in at : TRUE)
Prof == /\ Ev.op = "prof" /\ UNCHANGED st
        /\ On("C24") =>
             LET tr == Asked(Ev.t, Ev.s)
             IN  IF tr = <<>> THEN Ev.st = "err" ELSE Ev.st = "ok" /\ Ev.v = Profile(tr)
Here == {t \in DOMAIN st : st[t] # <<>>}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Chosen == IF Ev.all THEN Here ELSE Here \cap Set(Ev.sel)
Agg == /\ Ev.op = "agg" /\ UNCHANGED st
       /\ On("C24") =>
            IF Ev.bad THEN Ev.st = "err"
            ELSE /\ Ev.st = "ok" /\ Len(Ev.v) = Cardinality(Set(Ev.v))
                 /\ LET ts == AsSeq(Chosen) IN Set(Ev.v) = Aggregate([i \in DOMAIN ts |-> st[ts[i]]], Ev.mode)
Bare(tr) == [i \in DOMAIN tr |-> [s |-> tr[i].s, p |-> tr[i].p, u |-> IF i = 1 THEN 0 ELSE tr[i].u, a |-> tr[i].a]]
Shown(n, t) == [i \in DOMAIN n |-> [s |-> n[i].s, p |-> n[i].p, u |-> n[i].u, a |-> n[i].a]]
AllOf(n, t) == \A i \in DOMAIN n : n[i].t = t
Page == /\ Ev.op = "page" /\ UNCHANGED st
        /\ On("C29") =>
             LET tr == Asked(Ev.t, Ev.s)
             IN  IF tr = <<>> THEN Ev.st = "err"
                 ELSE /\ Ev.st = "ok" /\ AllOf(Ev.n, Ev.t) /\ Shown(Ev.n, Ev.t) = Bare(tr)
                      /\ Ev.links = (tr[1].p = 0)
                      /\ HasTimeline(tr) =>
                           /\ Ev.chart = "true" /\ Len(Ev.items) = Len(tr)
                           /\ LET want == Timeline(tr)
                              IN  \A i \in DOMAIN tr :
                                    LET x == Ev.items[i]
                                    IN  /\ [label |-> x.label, s |-> x.s, p |-> x.p, visible |-> x.visible, url |-> x.url, times |-> Set(x.times)] = want[i]
                                        /\ Len(x.times) = (IF tr[i].p = 0 THEN Len(tr[i].ev) ELSE 1)
                                        /\ Set(x.data) = Set(tr[i].a)
Important == {"SQL", "Tag", "Server.Response.StatusCode", "Client.Response.StatusCode"}
Imp(n) == {n.a[k] : k \in {j \in DOMAIN n.a : n.k[j] \in Important}}
List == /\ Ev.op = "list" /\ UNCHANGED st
        /\ On("C29") =>
             LET want == IF Ev.some THEN Here \cap Set(Ev.show) ELSE Here
             IN  /\ Ev.st = "ok" /\ Len(Ev.v) = Cardinality(want) /\ {Ev.v[k].t : k \in DOMAIN Ev.v} = want
                 /\ \A k \in DOMAIN Ev.v :
                      LET x == Ev.v[k] IN
                      x.t \in want => /\ AllOf(x.n, x.t) /\ Shown(x.n, x.t) = Bare(st[x.t])
                                      /\ x.name = Label(st[x.t][1]) /\ Set(x.imp) = Imp(st[x.t][1])
Dash == /\ Ev.op = "dash" /\ UNCHANGED st
        /\ On("C29") =>
             IF ~Ev.on THEN Ev.code = 404 /\ Ev.page = 404
             ELSE /\ Ev.page = 200
                  /\ IF Ev.bad THEN Ev.code >= 400
                     ELSE /\ Ev.calls = 1 /\ Ev.exact /\ Ev.start = Ev.from - 72 /\ Ev.end = Ev.to - 72
                          /\ IF Ev.fail THEN Ev.code >= 400 ELSE Ev.code = 200 /\ Ev.got = Ev.want
Next == /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ (SetTrace \/ Prof \/ Agg \/ Page \/ List \/ Dash)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
