------------------------------- MODULE MemAlg -------------------------------
(***************************************************************************)
(* The temporary-root algorithm of the in-memory store (store.go), with    *)
(* its two indexes, as a state machine; TLC checks for small constants     *)
(* that what it shows is what MemStore allows.                             *)
(***************************************************************************)
EXTENDS MemStore

CONSTANTS Traces, Spans, MaxAnns, MaxOps, WithSave,
          Malformed   \* TRUE: any parent relation; FALSE: well-formed only

VARIABLES st,      \* abstract store (what was collected)
          root,    \* trace -> span at the top of its tree
          node,    \* trace -> span -> [p, a, sub]
          saved,   \* [st, root, node] of the last save, or the empty record
          ops
vars == <<st, root, node, saved, ops>>

Nodes(t) == IF t \in DOMAIN node THEN node[t] ELSE EmptyFun

---------------------------------------------------------------------------
(* Transcription; N is the node function of one trace *)
RECURSIVE LeadsBack(_, _, _, _)
LeadsBack(N, t, q, n) ==
    IF n = 0 \/ q \notin DOMAIN N THEN FALSE
    ELSE q = t \/ LeadsBack(N, t, N[q].p, n - 1)
InCycle(N, s) == LeadsBack(N, s, N[s].p, Cardinality(DOMAIN N))

AddSub(N, p, s) == [N EXCEPT ![p].sub = Append(@, s)]

Insert(N, r, s) ==
    IF N[s].p \in DOMAIN N /\ ~InCycle(N, s) THEN AddSub(N, N[s].p, s) ELSE AddSub(N, r, s)

Keep(sq, Test(_)) == SelectSeq(sq, Test)

Reattach(N, dst, src) ==
    LET mv(c) == N[c].p = dst /\ ~InCycle(N, c)
        st_(c) == ~mv(c)
    IN  [N EXCEPT ![dst].sub = @ \o Keep(N[src].sub, mv),
                  ![src].sub = Keep(@, st_)]

MoveTemp(N, r, old) ==
    LET tmp(c) == N[c].p # old
        own(c) == N[c].p = old
    IN  [N EXCEPT ![r].sub = @ \o Keep(N[old].sub, tmp), ![old].sub = Keep(@, own)]

\* result: [r |-> new root, n |-> new nodes]
AlgCollect(r0, N0, s, p, a) ==
    IF s \in DOMAIN N0 THEN [r |-> r0, n |-> [N0 EXCEPT ![s].a = @ \o a]]
    ELSE
      LET N1 == (s :> [p |-> p, a |-> a, sub |-> <<>>]) @@ N0
          r1 == IF N0 = EmptyFun THEN s ELSE r0
          newtop == s # r1 /\ (p = 0 \/ N1[r1].p = s)
          N2 == IF newtop THEN MoveTemp(Insert(Reattach(N1, s, r1), s, r1), s, r1) ELSE N1
          r2 == IF newtop THEN s ELSE r1
          N3 == IF p # 0 /\ s # r2 THEN Insert(N2, r2, s) ELSE N2
          N4 == IF s # r2 THEN Reattach(N3, s, r2) ELSE N3
      IN  [r |-> r2, n |-> N4]

---------------------------------------------------------------------------
\* depth-first listing of the tree, bounded so that a cyclic structure is seen
RECURSIVE Dfs(_, _, _, _, _), DfsSeq(_, _, _, _, _)
Dfs(t, N, s, u, n) ==
    IF n = 0 THEN << >>
    ELSE <<[s |-> s, p |-> N[s].p, u |-> u, t |-> t, a |-> N[s].a]>>
         \o DfsSeq(t, N, N[s].sub, s, n - 1)
DfsSeq(t, N, subs, u, n) ==
    IF subs = <<>> THEN <<>>
    ELSE Dfs(t, N, Head(subs), u, n) \o DfsSeq(t, N, Tail(subs), u, n)

Tree(t) == Dfs(t, node[t], root[t], 0, Cardinality(Spans) + 2)

---------------------------------------------------------------------------
Init == /\ st = EmptyStore /\ root = EmptyFun /\ node = EmptyFun
        /\ saved = EmptyFun /\ ops = 0

Collect(t, s, p, a) ==
    /\ IF Malformed THEN TRUE ELSE WellFormed(SpansOf(Collected(st, t, s, p, a), t))
    /\ st' = Collected(st, t, s, p, a)
    /\ LET r == AlgCollect(IF t \in DOMAIN root THEN root[t] ELSE 0, Nodes(t), s, p, a)
       IN  /\ root' = (t :> r.r) @@ root
           /\ node' = (t :> r.n) @@ node
    /\ UNCHANGED saved

Delete(t) ==
    /\ st' = Deleted(st, {t})
    /\ root' = [x \in DOMAIN root \ {t} |-> root[x]]
    /\ node' = [x \in DOMAIN node \ {t} |-> node[x]]
    /\ UNCHANGED saved

Save == /\ WithSave
        /\ saved' = [st |-> st, root |-> root, node |-> node]
        /\ UNCHANGED <<st, root, node>>
Load == /\ WithSave /\ saved # EmptyFun
        /\ st' = saved.st /\ root' = saved.root /\ node' = saved.node
        /\ UNCHANGED saved

AnnSeqs == UNION {[1..n -> {1}] : n \in 0..MaxAnns}

Next == /\ ops < MaxOps
        /\ ops' = ops + 1
        /\ \/ \E t \in Traces, s \in Spans, p \in Spans \cup {0, 99}, a \in AnnSeqs : Collect(t, s, p, a)
           \/ \E t \in Traces : t \in DOMAIN st /\ Delete(t)
           \/ Save \/ Load

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Inv == /\ DOMAIN st = DOMAIN root /\ DOMAIN st = DOMAIN node
       /\ \A t \in DOMAIN st : /\ DOMAIN node[t] = DOMAIN st[t]
                               /\ TreeOK(st[t], t, Tree(t))

\* a step changes one trace only (unless it loads)
Isolation == [][ (saved' = saved /\ saved = EmptyFun) =>
                 Cardinality({t \in Traces : SpansOf(st, t) # SpansOf(st', t)
                                             \/ (t \in DOMAIN node) # (t \in DOMAIN node')}) <= 1 ]_vars

\* once all spans of a well-formed trace are in, the tree depends on the parent relation only
Shape(t) == {<<n.s, n.u>> : n \in {Tree(t)[i] : i \in 1..Len(Tree(t))}}
Confluent == \A t \in DOMAIN st :
    (WellFormed(st[t]) /\ (\E s \in DOMAIN st[t] : st[t][s].pars = {0}))
       => Shape(t) = {<<s, IF st[t][s].pars = {0} THEN 0
                           ELSE IF ParentOf(st[t], s) \in DOMAIN st[t] THEN ParentOf(st[t], s)
                           ELSE CHOOSE r \in DOMAIN st[t] : st[t][r].pars = {0}>> : s \in DOMAIN st[t]}
=============================================================================
