--------------------------- MODULE TraceViewTrace ---------------------------
(***************************************************************************)
(* What traces said of themselves; span i is the i-th, depth first.        *)
(*  find i q got     FindSpan on the subtree at i                          *)
(*  text i lines     TreeString                                            *)
(*  name i got, times i ok s e, map i m, imp i got    of the span i        *)
(*  json i nodes span    String, read back                                 *)
(*  same nodes       the trace after all that                              *)
(***************************************************************************)
EXTENDS TraceView, TraceLib
VARIABLES tid, l
vars == <<tid, l>>
Tr == Recorded
Ev == Tr[tid].ev[l]
T == Tr[tid].cfg.nodes
Init == tid \in 1..Len(Tr) /\ l = 1
Plain(t) == [i \in DOMAIN t |-> [id |-> t[i].id, d |-> t[i].d, a |-> t[i].a]]
Right ==
    CASE Ev.op = "find" -> Ev.got = Find(T, Ev.i, Ev.q)
      [] Ev.op = "text" -> IsText(Ev.lines, SubTree(T, Ev.i))
      [] Ev.op = "name" -> Ev.got = Name(T[Ev.i].a)
      [] Ev.op = "times" -> [ok |-> Ev.ok, s |-> Ev.s, e |-> Ev.e] = Span(Tr[tid].cfg.times[Ev.i])
      [] Ev.op = "json" -> /\ Plain(Ev.nodes) = Plain(SubTree(T, Ev.i))
                           /\ Len(Ev.span) = 1 /\ Ev.span[1].id = T[Ev.i].id /\ Ev.span[1].a = T[Ev.i].a
      [] Ev.op = "map" -> IsMap(Ev.m, T[Ev.i].a)
      [] Ev.op = "imp" -> /\ \A j \in DOMAIN Ev.got : T[Ev.i].a[Ev.got[j]].k \in ImportantKeys
                          /\ \A j \in DOMAIN T[Ev.i].a : T[Ev.i].a[j].k \in ImportantKeys => \E n \in DOMAIN Ev.got : Ev.got[n] = j
      [] Ev.op = "same" -> Ev.nodes = T
      [] OTHER -> FALSE
Next == l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid /\ TRUE = Right
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
