----------------------------- MODULE TraceViewMC -----------------------------
(***************************************************************************)
(* The two procedures behind a trace's helpers, step by step: a depth-     *)
(* first search that stops at the first span of an ID, and one pass over   *)
(* the events of a span that keeps the earliest start and latest end.      *)
(* Independent (variant X) is the wrong pass that moves the end only when   *)
(* it did not move the start.                                              *)
(***************************************************************************)
EXTENDS TraceView
CONSTANTS N, I, E, M, Wrong
VARIABLES up, id, q, stack, found, over, evs, k, s, e
vars == <<up, id, q, stack, found, over, evs, k, s, e>>
Seqs(S, n) == [1..n -> S]
Kids(u) == SelectSeq([j \in 1..Len(up) |-> j], LAMBDA j : up[j] = u)
Init == /\ \E n \in 1..N : /\ up \in {f \in [1..n -> 0..n] : f[1] = 0 /\ \A j \in 2..n : f[j] \in 1..j - 1}
                           /\ id \in Seqs(1..I, n)
        /\ q \in 1..I + 1 /\ stack = <<1>> /\ found = 0 /\ over = FALSE
        /\ evs \in UNION {Seqs((0..M) \X (0..M), n) : n \in 0..E} /\ k = 0 /\ s = 0 /\ e = 0
\* push the children of the visited span in front
Visit == /\ ~over /\ UNCHANGED <<up, id, q, evs, k, s, e>>
         /\ IF stack = <<>> THEN over' = TRUE /\ UNCHANGED <<stack, found>>
            ELSE IF id[Head(stack)] = q THEN found' = Head(stack) /\ over' = TRUE /\ UNCHANGED stack
            ELSE stack' = Kids(Head(stack)) \o Tail(stack) /\ UNCHANGED <<found, over>>
Pass == /\ over /\ k < Len(evs) /\ k' = k + 1 /\ UNCHANGED <<up, id, q, stack, found, over, evs>>
        /\ LET x == evs[k + 1] IN
           IF k = 0 THEN s' = x[1] /\ e' = x[2]
           ELSE /\ s' = (IF x[1] < s THEN x[1] ELSE s)
                /\ e' = (IF x[2] > e /\ ~(Wrong /\ x[1] < s) THEN x[2] ELSE e)
Next == Visit \/ Pass
Spec == Init /\ [][Next]_vars
\* the trace as a sequence of spans, depth first
RECURSIVE Walk(_, _)
RECURSIVE Walks(_, _)
Walks(ks, d) == IF ks = <<>> THEN <<>> ELSE Walk(Head(ks), d) \o Walks(Tail(ks), d)
Walk(u, d) == <<[n |-> u, id |-> <<0, id[u], 0>>, d |-> d, a |-> <<>>]>> \o Walks(Kids(u), d + 1)
FindRight == over => LET t == Walk(1, 0) f == Find(t, 1, q) IN found = IF f = 0 THEN 0 ELSE t[f].n
\* what Last says is the subtree: every span has as many as it has descendants
RECURSIVE Size(_)
RECURSIVE Sizes(_)
Sizes(ks) == IF ks = <<>> THEN 0 ELSE Size(Head(ks)) + Sizes(Tail(ks))
Size(u) == 1 + Sizes(Kids(u))
SubRight == LET t == Walk(1, 0) IN \A i \in DOMAIN t : Len(SubTree(t, i)) = Size(t[i].n)
TimesRight == (over /\ k = Len(evs)) => LET x == Span(evs) IN x.ok = (k > 0) /\ x.s = s /\ x.e = e
=============================================================================
