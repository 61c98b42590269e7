------------------------------- MODULE Limit -------------------------------
(***************************************************************************)
(* A store limited to a maximum number of traces.  The state is the        *)
(* sequence of held traces, the one first seen longest ago first, and the  *)
(* annotations of each.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Held(q) == {q[i].t : i \in 1..Len(q)}
Empty == <<>>

\* the outcome of a collection that succeeds
Collected(max, q, t, a) ==
    IF max = 0 THEN q
    ELSE IF t \in Held(q)
         THEN [i \in 1..Len(q) |-> IF q[i].t = t THEN [t |-> t, a |-> Append(q[i].a, a)] ELSE q[i]]
         ELSE Append(IF Len(q) >= max THEN Tail(q) ELSE q, [t |-> t, a |-> <<a>>])

\* traces are deleted on request
Deleted(q, D) == SelectSeq(q, LAMBDA e : e.t \notin D)

\* is a deletion needed (and so may its failure be reported)?
Evicts(max, q, t) == max > 0 /\ t \notin Held(q) /\ Len(q) >= max

\* The underlying store failed to collect.  A trace that is held stays as it
\* was.  Whether a new one counts as seen from then on, and whether another
\* was evicted for it, is open; it holds nothing.
CollectFailed(max, q, t) ==
    IF t \in Held(q) THEN {q}
    ELSE LET rest == {q} \cup (IF Len(q) >= max THEN {Tail(q)} ELSE {})
         IN rest \cup {Append(x, [t |-> t, a |-> <<>>]) : x \in {y \in rest : Len(y) < max}}

\* what an observer sees: the set of <<trace, annotations>>
Shown(q) == {i \in 1..Len(q) : q[i].a # <<>>}
View(q) == {<<q[i].t, q[i].a>> : i \in Shown(q)}

\* after n different traces 1..n, one after the other, those from Oldest on
Oldest(max, n) == IF n > max THEN n - max + 1 ELSE 1
RECURSIVE After(_, _)
After(max, n) == IF n = 0 THEN Empty ELSE Collected(max, After(max, n - 1), n, n)
ASSUME \A max \in 0..4, n \in 0..9 : Held(After(max, n)) = IF max = 0 THEN {} ELSE Oldest(max, n)..n
=============================================================================
