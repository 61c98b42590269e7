----------------------------- MODULE ServerTrace -----------------------------
(***************************************************************************)
(* Recorded runs of the collection server with raw clients.                *)
(*  open k / w k n  connection opened / n bytes of its stream being sent    *)
(*  shut k, reset k the client ends the connection                          *)
(*  col             the collector is called                                *)
(*  closed k        the client saw the connection closed                    *)
(*  quiet k         the server had time to settle this connection           *)
(***************************************************************************)
EXTENDS Server, TraceLib
VARIABLES tid, l, c
vars == <<tid, l, c>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Init == /\ tid \in 1..Len(Tr) /\ l = 1
        /\ c = [k \in 1..Len(Tr[tid].cfg.conns) |-> Conn(Tr[tid].cfg.conns[k].b, Tr[tid].cfg.conns[k].head)]
Refuses(m) == \E i \in 1..Len(m.anns) : m.anns[i].k = <<70>>
Set(k, x) == c' = [c EXCEPT ![k] = x]
Next ==
    /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
    /\ CASE Ev.op = "open" -> c[Ev.k].st = "new" /\ Set(Ev.k, [c[Ev.k] EXCEPT !.st = "open"])
         [] Ev.op = "w" -> Set(Ev.k, [c[Ev.k] EXCEPT !.w = Ev.n])
         [] Ev.op = "shut" -> Set(Ev.k, [c[Ev.k] EXCEPT !.st = "shut"])
         [] Ev.op = "reset" -> Set(Ev.k, [c[Ev.k] EXCEPT !.st = "reset"])
         [] Ev.op = "col" -> \E k \in DOMAIN c : CanPass(c[k], Ev.m) /\ Set(k, Pass(c[k], Refuses(Ev.m)))
         [] Ev.op = "closed" -> MayClose(c[Ev.k]) /\ Set(Ev.k, Close(c[Ev.k]))
         [] Ev.op = "quiet" -> Settled(c[Ev.k]) /\ UNCHANGED c
         [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
