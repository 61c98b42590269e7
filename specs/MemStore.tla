------------------------------ MODULE MemStore ------------------------------
(***************************************************************************)
(* What a user may observe of the in-memory store.  A store state is a     *)
(* function from the present trace IDs to functions from the collected     *)
(* span IDs to                                                             *)
(*   pars : the set of parent IDs the span was collected with (0 = none)   *)
(*   anns : the sequence of annotations collected for it                   *)
(* A trace as returned by the store is a sequence of nodes in depth-first  *)
(* order, each a record  [s: span, p: parent ID, u: span it hangs under    *)
(* (0 for the top), t: trace ID, a: annotations].                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

EmptyFun == [x \in {} |-> 0]
EmptyStore == EmptyFun

SpansOf(st, t) == IF t \in DOMAIN st THEN st[t] ELSE EmptyFun

---------------------------------------------------------------------------
(* Operations on the abstract store *)

Collected(st, t, s, p, a) ==
    LET old == SpansOf(st, t)
        new == IF s \in DOMAIN old
               THEN [pars |-> old[s].pars \cup {p}, anns |-> old[s].anns \o a]
               ELSE [pars |-> {p}, anns |-> a]
    IN  (t :> ((s :> new) @@ old)) @@ st

Deleted(st, ids) == [t \in (DOMAIN st) \ ids |-> st[t]]

Selected(st, filter) == IF filter = {} THEN DOMAIN st ELSE DOMAIN st \cap filter

---------------------------------------------------------------------------
(* Well-formed span sets *)

ParentOf(sp, s) == CHOOSE p \in sp[s].pars : TRUE

RECURSIVE Peel(_, _)
Peel(par, S) ==
    LET L == {s \in S : par[s] \notin S}
    IN  IF L = {} THEN S ELSE Peel(par, S \ L)

WellFormed(sp) ==
    /\ \A s \in DOMAIN sp : Cardinality(sp[s].pars) = 1
    /\ Cardinality({s \in DOMAIN sp : 0 \in sp[s].pars}) <= 1
    /\ LET par == [s \in DOMAIN sp |-> ParentOf(sp, s)]
       IN  Peel(par, DOMAIN sp) = {}

---------------------------------------------------------------------------
(* Returned trees *)

NodeSpans(tree) == {tree[i].s : i \in 1..Len(tree)}

\* every collected span exactly once, and nothing else
ExactlyOnce(sp, tree) ==
    /\ Len(tree) = Cardinality(DOMAIN sp)
    /\ NodeSpans(tree) = DOMAIN sp

IDsRight(sp, t, tree) ==
    \A i \in 1..Len(tree) :
        /\ tree[i].t = t
        /\ tree[i].s \in DOMAIN sp => tree[i].p \in sp[tree[i].s].pars

\* the place of every span in the tree of a well-formed trace
Placed(sp, tree) ==
    /\ Len(tree) > 0
    /\ \A i \in 1..Len(tree) : (tree[i].u = 0) <=> (i = 1)
    /\ LET top == tree[1].s
           roots == {s \in DOMAIN sp : sp[s].pars = {0}}
       IN  /\ roots # {} => top \in roots
           /\ \A i \in 2..Len(tree) :
                 tree[i].u = (IF tree[i].p \in DOMAIN sp THEN tree[i].p ELSE top)

Annotated(sp, tree) ==
    \A i \in 1..Len(tree) :
        tree[i].s \in DOMAIN sp => tree[i].a = sp[tree[i].s].anns

\* one connected tree whatever the graph
Rooted(sp, tree) ==
    /\ Len(tree) > 0
    /\ \A i \in 1..Len(tree) : (tree[i].u = 0) <=> (i = 1)
    /\ \A i \in 2..Len(tree) : \E j \in 1..(i-1) : tree[j].s = tree[i].u

TreeOK(sp, t, tree) ==
    /\ ExactlyOnce(sp, tree)
    /\ IDsRight(sp, t, tree)
    /\ Annotated(sp, tree)
    /\ Rooted(sp, tree)
    /\ WellFormed(sp) => Placed(sp, tree)
=============================================================================
