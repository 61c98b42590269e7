------------------------------ MODULE MemTrace ------------------------------
(***************************************************************************)
(* Histories of one in-memory store (single caller): every logged call     *)
(* must have a result that MemStore allows.                                *)
(***************************************************************************)
EXTENDS MemStore, TraceLib

VARIABLES tid, l,
          st,       \* abstract store
          hs,       \* caller slices: handle -> [els, n]
          saves,    \* saved states by slot
          snaps,    \* returned traces that are kept: k -> tree
          loaded    \* a load has happened in this history
vars == <<tid, l, st, hs, saves, snaps, loaded>>

Tr == Recorded
Ev == Tr[tid].ev[l]

Init == /\ tid \in 1..Len(Tr)
        /\ l = 1
        /\ st = EmptyStore /\ hs = EmptyFun /\ saves = EmptyFun /\ snaps = EmptyFun
        /\ loaded = FALSE

TreeChecks(sp, t, tree, cyc) ==
    /\ (On("C01") /\ WellFormed(sp)) => /\ ~cyc /\ ExactlyOnce(sp, tree)
                                        /\ IDsRight(sp, t, tree) /\ Placed(sp, tree)
    /\ On("C02") => (~cyc /\ Annotated(sp, tree))
    /\ On("C04") => /\ ~cyc /\ ExactlyOnce(sp, tree) /\ IDsRight(sp, t, tree)
                    /\ Annotated(sp, tree) /\ Rooted(sp, tree)
    /\ On("C05") => ~cyc /\ NodeSpans(tree) = DOMAIN sp /\ Annotated(sp, tree)
    /\ (On("C06") /\ loaded) => (~cyc /\ TreeOK(sp, t, tree))
    /\ On("C03") => (~cyc /\ TreeOK(sp, t, tree))

SetOf(sq) == {sq[i] : i \in 1..Len(sq)}

E_C == /\ Ev.op = "C" /\ Ev.err = ""
       /\ st' = Collected(st, Ev.t, Ev.s, Ev.p, Ev.a)
       /\ UNCHANGED <<hs, saves, snaps, loaded>>

E_NS == /\ Ev.op = "NS"
        /\ hs' = (Ev.h :> [els |-> Ev.els, n |-> Ev.n]) @@ hs
        /\ UNCHANGED <<st, saves, snaps, loaded>>

E_CS == /\ Ev.op = "CS" /\ Ev.err = ""
        /\ st' = Collected(st, Ev.t, Ev.s, Ev.p, SubSeq(hs[Ev.h].els, 1, hs[Ev.h].n))
        /\ UNCHANGED <<hs, saves, snaps, loaded>>

E_MS == /\ Ev.op = "MS"
        /\ hs' = [hs EXCEPT ![Ev.h].els[Ev.i] = Ev.v]
        /\ UNCHANGED <<st, saves, snaps, loaded>>

E_AS == /\ Ev.op = "AS"
        /\ LET h == hs[Ev.h]
           IN  hs' = [hs EXCEPT ![Ev.h] = [els |-> IF h.n < Len(h.els) THEN [h.els EXCEPT ![h.n + 1] = Ev.v]
                                                                     ELSE Append(h.els, Ev.v),
                                           n |-> h.n + 1]]
        /\ UNCHANGED <<st, saves, snaps, loaded>>

E_SL == /\ Ev.op = "SL"
        /\ (On("C02") => /\ Len(Ev.obs) >= Len(hs[Ev.h].els)
                        /\ SubSeq(Ev.obs, 1, Len(hs[Ev.h].els)) = hs[Ev.h].els)
        /\ UNCHANGED <<st, hs, saves, snaps, loaded>>

E_T == /\ Ev.op = "T"
       /\ Ev.err = ""
       /\ Ev.nf = (Ev.t \notin DOMAIN st)
       /\ ~Ev.nf => /\ TreeChecks(st[Ev.t], Ev.t, Ev.tree, Ev.cyc)
                    /\ (On("C01") \/ (On("C06") /\ loaded)) =>
                          SetOf(Ev.find) = SetOf(Ev.probe) \cap DOMAIN st[Ev.t]
       /\ snaps' = IF Ev.k # 0 /\ ~Ev.nf THEN (Ev.k :> Ev.tree) @@ snaps ELSE snaps
       /\ UNCHANGED <<st, hs, saves, loaded>>

E_L == /\ Ev.op = "L" /\ Ev.err = ""
       /\ LET got == {Ev.trees[i].t : i \in 1..Len(Ev.trees)}
          IN  /\ got = Selected(st, SetOf(Ev.f))
              /\ Len(Ev.trees) = Cardinality(got)
              /\ \A i \in 1..Len(Ev.trees) :
                    TreeChecks(st[Ev.trees[i].t], Ev.trees[i].t, Ev.trees[i].tree, Ev.trees[i].cyc)
              /\ snaps' = IF Ev.k # 0
                          THEN [j \in {Ev.k + i - 1 : i \in 1..Len(Ev.trees)} |-> Ev.trees[j - Ev.k + 1].tree] @@ snaps
                          ELSE snaps
       /\ UNCHANGED <<st, hs, saves, loaded>>

E_D == /\ Ev.op = "D" /\ Ev.err = ""
       /\ st' = Deleted(st, SetOf(Ev.ids))
       /\ UNCHANGED <<hs, saves, snaps, loaded>>

E_W == /\ Ev.op = "W" /\ Ev.err = ""
       /\ saves' = (Ev.k :> st) @@ saves
       /\ UNCHANGED <<st, hs, snaps, loaded>>

\* a save that cannot be completed says so
E_WF == /\ Ev.op = "WF" /\ Ev.err # ""
        /\ UNCHANGED <<st, hs, saves, snaps, loaded>>

\* a complete save loads back; a truncated one is refused
E_R == /\ Ev.op = "R"
       /\ IF Ev.cut
          THEN /\ Ev.err # "" /\ st' = (IF Ev.fresh THEN EmptyStore ELSE st)
          ELSE /\ Ev.err = "" /\ Ev.n = Cardinality(DOMAIN saves[Ev.k])
               /\ st' = saves[Ev.k]
       /\ loaded' = TRUE
       /\ UNCHANGED <<hs, saves, snaps>>

\* re-reading a trace returned earlier
E_RR == /\ Ev.op = "RR"
        /\ (On("C03") => Ev.tree = snaps[Ev.k])
        /\ UNCHANGED <<st, hs, saves, snaps, loaded>>

\* the caller scribbles over a trace returned earlier
E_MR == /\ Ev.op = "MR"
        /\ snaps' = [k \in DOMAIN snaps \ {Ev.k} |-> snaps[k]]
        /\ UNCHANGED <<st, hs, saves, loaded>>

Step == E_C \/ E_NS \/ E_CS \/ E_MS \/ E_AS \/ E_SL \/ E_T \/ E_L \/ E_D \/ E_W \/ E_WF \/ E_R \/ E_RR \/ E_MR

Next == /\ l <= Len(Tr[tid].ev)
        /\ Step
        /\ l' = l + 1 /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
