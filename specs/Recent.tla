------------------------------- MODULE Recent -------------------------------
(***************************************************************************)
(* A store that evicts traces by age.  st maps each seen trace to the time *)
(* it was first seen (since its eviction) and its annotations; pass is the *)
(* time of the last eviction pass.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Never == -1
EmptyFun == [x \in {} |-> 0]

Seen(st, t, a, now) ==
    IF t \in DOMAIN st THEN [st EXCEPT ![t].a = @ \o a]
    ELSE (t :> [first |-> now, a |-> a]) @@ st

Without(st, D) == [x \in DOMAIN st \ D |-> st[x]]

Due(pass, now, min) == pass = Never \/ now - pass > min
MayPass(pass, now, min) == Due(pass, now, min) \/ now - pass >= min

Old(st, now, min) == {x \in DOMAIN st : now - st[x].first > min}
Borderline(st, now, min) == {x \in DOMAIN st : now - st[x].first = min}

\* all outcomes of a collection: it may (or must) be accompanied by a pass
Outcomes(st, pass, now, min, t, a) ==
    (IF Due(pass, now, min) THEN {} ELSE {[st |-> Seen(st, t, a, now), pass |-> pass]})
    \cup
    (IF ~MayPass(pass, now, min) THEN {} ELSE
       LET s1 == Seen(st, t, a, now)
       IN  UNION { LET D == Old(s1, now, min) \cup B
                   IN  {[st |-> Without(s1, D), pass |-> now]}
                       \* the span may come just after the eviction of its own old trace
                       \cup (IF t \in D THEN {[st |-> Seen(Without(st, D), t, a, now), pass |-> now]} ELSE {})
                   : B \in SUBSET Borderline(s1, now, min) })

View(st) == {<<t, st[t].a>> : t \in {x \in DOMAIN st : st[x].a # <<>>}}
=============================================================================
