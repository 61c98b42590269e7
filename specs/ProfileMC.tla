------------------------------ MODULE ProfileMC ------------------------------
(* The way the web application computes profiles (one recursion over the   *)
(* tree that appends to a list and hands up the child's own and cumulative *)
(* times) and aggregates, against their definition, for all small trees.   *)
EXTENDS Profile, TLC
CONSTANTS MaxN, MaxT, MaxTraces
VARIABLES tr, traces, phase
vars == <<tr, traces, phase>>
\* trees in depth-first order: a span hangs under one of the last path
RECURSIVE PathOf(_, _)
PathOf(t, i) == IF i = 1 THEN {1} ELSE {i} \cup PathOf(t, CHOOSE j \in 1..(i - 1) : t[j].s = t[i].u)
Span(s, u, name, d) == [s |-> s, p |-> u, u |-> u, id |-> ToString(s), name |-> name,
                        ev |-> IF d = 0 THEN <<>> ELSE <<[s |-> 0, sn |-> 0, e |-> d, en |-> 0, schema |-> "x"]>>]
Init == /\ \E d \in 0..MaxT, nm \in {"", "a"} : tr = <<Span(1, 0, nm, d)>>
        /\ traces = <<>> /\ phase = 0
Grow == /\ Len(tr) < MaxN /\ \E j \in PathOf(tr, Len(tr)), d \in 0..MaxT, nm \in {"", "a"} :
               tr' = Append(tr, Span(Len(tr) + 1, tr[j].s, nm, d))
        /\ UNCHANGED <<traces, phase>>
Finish == /\ Len(traces) < MaxTraces /\ traces' = Append(traces, tr) /\ tr' = <<Span(1, 0, "a", 0)>> /\ UNCHANGED phase
Next == Grow \/ Finish
Spec == Init /\ [][Next]_vars

\* calcProfile: [buf, own, cum] after the span i and all under it
RECURSIVE Calc(_, _, _), CalcKids(_, _, _, _)
Calc(t, buf, i) ==
    LET me == Len(buf) + 1
        b0 == Append(buf, [name |-> Label(t[i]), url |-> IF t[i].p = 0 THEN "" ELSE t[i].id, own |-> Own(t[i]), kids |-> Own(t[i]), cum |-> Own(t[i])])
    IN  CalcKids(t, b0, me, Kids(t, i))
CalcKids(t, buf, me, kids) ==
    IF kids = {} THEN buf
    ELSE LET c == Min(kids)
             pos == Len(buf) + 1
             b1 == Calc(t, buf, c)
             b2 == [b1 EXCEPT ![me].kids = @ + b1[pos].own, ![me].cum = @ + b1[pos].cum]
         IN  CalcKids(t, b2, me, kids \ {c})
CalcIsProfile == Calc(tr, <<>>, 1) = Profile(tr)

\* the time of a whole trace is the sum of all own times, counted once
RootCum == Profile(tr)[1].cum = SumSeq(Owns(tr))
Nested == \A i \in DOMAIN tr : Profile(tr)[i].own <= Profile(tr)[i].kids /\ Profile(tr)[i].kids <= Profile(tr)[i].cum
\* a part's profile is the part of the profile
Parts == \A i \in DOMAIN tr : LET p == Profile(Part(tr, i)) IN \A k \in DOMAIN p : p[k] = Profile(tr)[i + k - 1]
Total(agg) == LET RECURSIVE T(_)
                  T(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x.value + T(S \ {x})
              IN  T(agg)
All == Append(traces, tr)
Zeros(mode) == {a \in Aggregate(All, mode) : a.value = 1}
\* what the views show adds up to the time of all traces, but for labels without time
Sums == LET whole == SumSeq([i \in DOMAIN All |-> SumSeq(Owns(All[i]))])
            roots == SumSeq([i \in DOMAIN All |-> Own(All[i][1])])
        IN  /\ Total(Aggregate(All, "trace-only")) \in whole..(whole + Cardinality(Zeros("trace-only")))
            /\ Total(Aggregate(All, "span-only")) \in (whole - roots)..(whole - roots + Cardinality(Zeros("span-only")))
            /\ Total(Aggregate(All, "trace-and-span")) \in (whole - roots)..(whole - roots + Cardinality(Zeros("trace-and-span")))
Positive == \A m \in {"trace-only", "span-only", "trace-and-span"} : \A a \in Aggregate(All, m) : a.value >= 1
\* the selection's order does not matter
Flip == \A m \in {"trace-only", "span-only", "trace-and-span"} :
            Aggregate(All, m) = Aggregate([i \in DOMAIN All |-> All[Len(All) + 1 - i]], m)
=============================================================================
