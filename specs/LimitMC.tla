------------------------------ MODULE LimitMC ------------------------------
(* The ring of slots that the code keeps refines Limit.                    *)
EXTENDS Limit, Integers
CONSTANTS Maxes, Traces, Steps

VARIABLES max, q, n,      \* specification; number of steps
          ring, known, nxt, \* implementation: slots (0 = free), trace set, next slot
          last             \* held before the last step, for the action properties
vars == <<max, q, n, ring, known, nxt, last>>

Init == /\ max \in Maxes
        /\ q = Empty /\ n = 0
        /\ ring = [i \in 1..max |-> 0] /\ known = {} /\ nxt = 1
        /\ last = Empty

Collect(t) ==
    /\ n < Steps /\ n' = n + 1
    /\ q' = Collected(max, q, t, n)
    /\ last' = q
    /\ UNCHANGED max
    /\ IF max = 0 \/ t \in known THEN UNCHANGED <<ring, known, nxt>>
       ELSE /\ known' = (known \ {ring[nxt]}) \cup {t}
            /\ ring' = [ring EXCEPT ![nxt] = t]
            /\ nxt' = (nxt % max) + 1

\* the held slots, the oldest first, without D
Delete(D) ==
    /\ n < Steps /\ n' = n + 1
    /\ q' = Deleted(q, D) /\ last' = q'
    /\ UNCHANGED max
    /\ known' = known \ D
    /\ LET c == Cardinality(known)
           old == [i \in 1..c |-> ring[((nxt - 1 + max - c + i - 1) % max) + 1]]
           kept == SelectSeq(old, LAMBDA t : t \notin D)
       IN  IF max = 0 THEN UNCHANGED <<ring, nxt>>
           ELSE /\ ring' = [i \in 1..max |-> IF i <= Len(kept) THEN kept[i] ELSE 0]
                /\ nxt' = (Len(kept) % max) + 1

Next == \/ \E t \in Traces : Collect(t)
        \/ \E D \in SUBSET Traces : Delete(D)
Spec == Init /\ [][Next]_vars

Bounded == Len(q) <= max
Refines == /\ known = Held(q)
           /\ max > 0 => \A i \in 1..Len(q) :
                 \* slots in order of age, the oldest first
                 q[i].t = ring[((nxt - 1 + (IF Len(q) = max THEN 0 ELSE max - Len(q)) + i - 1) % max) + 1]
OneOut == Cardinality(Held(last) \ Held(q)) <= 1
OldestOut == \A i, j \in 1..Len(last) : (i < j /\ last[j].t \notin Held(q)) => last[i].t \notin Held(q)
=============================================================================
