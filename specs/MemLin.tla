------------------------------- MODULE MemLin -------------------------------
(***************************************************************************)
(* Concurrent histories of one in-memory store: is there a sequence of     *)
(* instants, one within each call, that explains all results?              *)
(* cfg.ops[i] is the i-th operation with its result, cfg.blob the collects *)
(* that make up the state of a save that may be loaded; ev is the sequence *)
(* of calls and returns in real-time order.  Linearization steps are taken *)
(* only when the next event is the return of an open call, which loses     *)
(* nothing: an instant may always be moved forward to there.               *)
(***************************************************************************)
EXTENDS MemStore, TraceLib

VARIABLES tid, l, st, open
vars == <<tid, l, st, open>>

Tr == Recorded
Ev == Tr[tid].ev[l]
Op(i) == Tr[tid].cfg.ops[i]

SetOf(sq) == {sq[i] : i \in 1..Len(sq)}

RECURSIVE AfterCollects(_, _)
AfterCollects(s, sq) ==
    IF sq = <<>> THEN s
    ELSE AfterCollects(Collected(s, sq[1].t, sq[1].s, sq[1].p, sq[1].a), Tail(sq))

Init == tid \in 1..Len(Tr) /\ l = 1 /\ st = EmptyStore /\ open = {}

Listed(s, sel, trees) ==
    /\ Len(trees) = Cardinality(sel)
    /\ {trees[i].t : i \in 1..Len(trees)} = sel
    /\ \A i \in 1..Len(trees) : ~trees[i].cyc /\ TreeOK(s[trees[i].t], trees[i].t, trees[i].tree)

Apply(o) ==
    CASE o.op = "C" -> o.err = "" /\ st' = Collected(st, o.t, o.s, o.p, o.a)
      [] o.op = "D" -> o.err = "" /\ st' = Deleted(st, SetOf(o.ids))
      [] o.op = "T" -> /\ o.err = "" /\ o.nf = (o.t \notin DOMAIN st)
                       /\ ~o.nf => (~o.cyc /\ TreeOK(st[o.t], o.t, o.tree))
                       /\ UNCHANGED st
      [] o.op = "L" -> /\ o.err = "" /\ Listed(st, Selected(st, SetOf(o.f)), o.trees)
                       /\ UNCHANGED st
      [] o.op = "W" -> /\ o.err = "" /\ Listed(st, DOMAIN st, o.trees)
                       /\ UNCHANGED st
      [] o.op = "R" -> /\ o.err = ""
                       /\ st' = AfterCollects(EmptyStore, Tr[tid].cfg.blob)
                       /\ o.n = Cardinality(DOMAIN st')
      [] OTHER -> FALSE

Call == /\ Ev.op = "call"
        /\ open' = open \cup {Ev.i}
        /\ l' = l + 1 /\ UNCHANGED st

Lin == /\ Ev.op = "ret" /\ Ev.i \in open
       /\ \E j \in open : Apply(Op(j)) /\ open' = open \ {j}
       /\ UNCHANGED l

Ret == /\ Ev.op = "ret" /\ Ev.i \notin open
       /\ l' = l + 1 /\ UNCHANGED <<st, open>>

\* a trace returned earlier, read again
Again == /\ Ev.op = "RR"
         /\ Ev.tree = (IF Op(Ev.i).op = "T" THEN Op(Ev.i).tree ELSE Op(Ev.i).trees[Ev.j].tree)
         /\ l' = l + 1 /\ UNCHANGED <<st, open>>

Next == /\ l <= Len(Tr[tid].ev)
        /\ Call \/ Lin \/ Ret \/ Again
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
