------------------------------- MODULE Profile -------------------------------
(***************************************************************************)
(* What the pages of the web application show of a trace.  A trace is a    *)
(* sequence of spans in depth-first order, each                            *)
(*   [s, p, u: its ID, its parent's, that of the span it hangs under,      *)
(*    id: its ID as text, name: its name ("" for none),                    *)
(*    ev: its timespan events, each [s, sn, e, en, schema]]                *)
(* where s and e are whole milliseconds and sn and en the nanoseconds left. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
\* sum of f over a set of indices
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

Label(n) == IF n.name = "" THEN n.id ELSE n.name

\* the duration of an event in milliseconds, rounded; none is shorter than 0
Ms(v) == LET d == v.e - v.s
             r == v.en - v.sn       \* between -999999 and 999999
         IN  IF r >= 500000 THEN d + 1 ELSE IF r < -500000 THEN d - 1 ELSE d
Own(n) == Max({0} \cup {Ms(n.ev[k]) : k \in DOMAIN n.ev})
Owns(tr) == [i \in DOMAIN tr |-> Own(tr[i])]

Kids(tr, i) == {j \in DOMAIN tr : j # 1 /\ tr[j].u = tr[i].s}
\* the spans under a span are those between it and the next that is not deeper
RECURSIVE Under(_, _)
Under(tr, i) == UNION {{j} \cup Under(tr, j) : j \in Kids(tr, i)}

\* the spans of a span's part of the trace, in order
Part(tr, i) == LET S == {i} \cup Under(tr, i) IN [k \in 1..Cardinality(S) |-> tr[i + k - 1]]

Profile(tr) ==
    LET own == Owns(tr)
    IN  [i \in DOMAIN tr |-> [name |-> Label(tr[i]),
                              url |-> IF tr[i].p = 0 THEN "" ELSE tr[i].id,
                              own |-> own[i],
                              kids |-> own[i] + SumOver(own, Kids(tr, i)),
                              cum |-> own[i] + SumOver(own, Under(tr, i))]]

\* what a trace adds to the aggregate view
Shares(tr, mode) ==
    LET own == Owns(tr)
    IN  IF mode = "span-only" THEN [k \in 1..(Len(tr) - 1) |-> [label |-> Label(tr[k + 1]), v |-> own[k + 1]]]
        ELSE IF mode = "trace-and-span"
             THEN [k \in 1..(Len(tr) - 1) |-> [label |-> Label(tr[1]) \o ": " \o Label(tr[k + 1]), v |-> own[k + 1]]]
        ELSE <<[label |-> Label(tr[1]), v |-> SumSeq(own)]>>
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
\* traces: a sequence of those selected
Aggregate(traces, mode) ==
    LET sh == Concat([i \in DOMAIN traces |-> Shares(traces[i], mode)])
    IN  {[label |-> l, value |-> Max({1, SumOver([k \in DOMAIN sh |-> sh[k].v], {k \in DOMAIN sh : sh[k].label = l})})]
            : l \in {sh[k].label : k \in DOMAIN sh}}

\* the timeline of a trace whose spans all have a name and a timespan event:
\* the events of the root one by one, of any other span from the first start
\* to the last end
RECURSIVE Depth(_, _)
Depth(tr, i) == IF i = 1 THEN 0 ELSE 1 + Depth(tr, CHOOSE j \in 1..(i - 1) : tr[j].s = tr[i].u)
Time(n, s, e, schema) == [s |-> s, e |-> e, ms |-> IF e > s THEN e - s ELSE 0, label |-> IF e > s THEN n.name ELSE schema, timed |-> e > s]
Times(n) == IF n.p = 0 THEN {Time(n, n.ev[k].s, n.ev[k].e, n.ev[k].schema) : k \in DOMAIN n.ev}
            ELSE {Time(n, Min({n.ev[k].s : k \in DOMAIN n.ev}), Max({n.ev[k].e : k \in DOMAIN n.ev}), "")}
HasTimeline(tr) == \A i \in DOMAIN tr : tr[i].name # "" /\ tr[i].ev # <<>>
Timeline(tr) ==
    [i \in DOMAIN tr |-> [label |-> tr[i].name, s |-> tr[i].s, p |-> tr[i].p, visible |-> Depth(tr, i) <= 1,
                          url |-> IF tr[i].p = 0 THEN "" ELSE tr[i].id, times |-> Times(tr[i])]]
=============================================================================
