---------------------------- MODULE ChunkedTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the chunked collector (virtual time).                  *)
(*  cc/cr  a Collect call / its return       f+/f-  a manual Flush          *)
(*  s+/s-  Stop                              of     OnFlush(n)              *)
(*  u+/u-  an underlying Collect             z      the end                 *)
(* The instants at which calls take effect are found by TLC.               *)
(***************************************************************************)
EXTENDS Chunked, TraceLib
VARIABLES tid, l, c, t,
          calls,   \* Collect calls under way that have not taken effect
          res,     \* outcome of those that have
          mans,    \* manual flushes that have not taken the queue: id -> start
          fin,     \* errors of manual flushes that ended
          shown,   \* flushes whose OnFlush was seen
          stops    \* Stop calls under way, not yet effective
vars == <<tid, l, c, t, calls, res, mans, fin, shown, stops>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Cfg == Tr[tid].cfg

Init == /\ tid \in 1..Len(Tr) /\ l = 1 /\ c = Start /\ t = 0
        /\ calls = EmptyFun /\ res = EmptyFun /\ mans = EmptyFun /\ fin = EmptyFun
        /\ shown = {} /\ stops = {}

SetOf(s) == {s[i] : i \in 1..Len(s)}
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* time may pass only while everything that can go on waits for an underlying call
Time == /\ Ev.now >= t
        /\ Ev.now > t => /\ \A id \in DOMAIN c.fl : c.fl[id].cur # 0
                         /\ mans = EmptyFun /\ calls = EmptyFun /\ res = EmptyFun /\ stops = {}
                         /\ fin = EmptyFun
        /\ InTime(c, Ev.now, Cfg.interval)
        /\ t' = Ev.now

Visible ==
    /\ Time /\ l' = l + 1 /\ UNCHANGED tid
    /\ CASE Ev.op = "cc" -> /\ calls' = (Ev.i :> [span |-> Ev.span, anns |-> Ev.anns, size |-> Ev.size]) @@ calls
                            /\ UNCHANGED <<c, res, mans, fin, shown, stops>>
         [] Ev.op = "cr" -> /\ Ev.i \in DOMAIN res /\ res[Ev.i] = SetOf(Ev.errs)
                            /\ res' = Drop(res, Ev.i)
                            /\ UNCHANGED <<c, calls, mans, fin, shown, stops>>
         [] Ev.op = "f+" -> /\ mans' = (Ev.i :> Ev.now) @@ mans
                            /\ UNCHANGED <<c, calls, res, fin, shown, stops>>
         [] Ev.op = "f-" -> /\ Ev.i \in DOMAIN fin
                            /\ fin[Ev.i] # {"any"} => fin[Ev.i] = SetOf(Ev.errs)
                            /\ fin' = Drop(fin, Ev.i)
                            /\ UNCHANGED <<c, calls, res, mans, shown, stops>>
         [] Ev.op = "s+" -> /\ stops' = stops \cup {Ev.i}
                            /\ UNCHANGED <<c, calls, res, mans, fin, shown>>
         [] Ev.op = "s-" -> /\ c.stopped /\ Ev.i \notin stops
                            /\ UNCHANGED <<c, calls, res, mans, fin, shown, stops>>
         [] Ev.op = "of" -> /\ \E id \in DOMAIN c.fl \ shown :
                                 /\ c.fl[id].cur = 0 /\ Cardinality(DOMAIN c.fl[id].todo) = Ev.n
                                 /\ shown' = shown \cup {id}
                            /\ UNCHANGED <<c, calls, res, mans, fin, stops>>
         [] Ev.op = "u+" -> /\ \E id \in DOMAIN c.fl :
                                 /\ Cfg.onflush => id \in shown
                                 /\ CanPass(c, id, Ev.span)
                                 /\ c.fl[id].todo[Ev.span] = Ev.anns
                                 /\ c' = Passing(c, id, Ev.span)
                            /\ UNCHANGED <<calls, res, mans, fin, shown, stops>>
         [] Ev.op = "u-" -> /\ \E id \in DOMAIN c.fl :
                                 /\ c.fl[id].cur = Ev.span
                                 /\ c' = Passed(c, id, Ev.err, Ev.now, Cfg.timeout)
                            /\ UNCHANGED <<calls, res, mans, fin, shown, stops>>
         [] Ev.op = "z" -> /\ c.fl = EmptyFun /\ (~c.stopped => c.q = <<>>)
                           /\ UNCHANGED <<c, calls, res, mans, fin, shown, stops>>
         [] OTHER -> FALSE

\* a Collect call takes effect
Effect ==
    /\ \E i \in DOMAIN calls :
         /\ calls' = Drop(calls, i)
         /\ LET k == calls[i]
            IN  IF c.stopped THEN res' = (i :> {"stopped"}) @@ res /\ UNCHANGED c
                ELSE IF Overflows(c, k.size, Cfg.max)
                THEN res' = (i :> {"dropped"}) @@ res /\ c' = Emptied(c)
                ELSE res' = (i :> c.last) @@ res /\ c' = Queued(c, k.span, k.anns, k.size, t)
    /\ UNCHANGED <<mans, fin, shown, stops>>

Take ==
    /\ UNCHANGED <<calls, res, fin, shown, stops>>
    /\ \/ \E i \in DOMAIN mans : c' = Took(c, i, mans[i]) /\ mans' = Drop(mans, i) /\ UNCHANGED t
       \/ /\ 0 \notin DOMAIN c.fl /\ UNCHANGED mans
          /\ (c.q # <<>> \/ Cfg.onflush)
          /\ c' = Took(c, 0, Ev.now)
          /\ Time

End ==
    /\ \E id \in DOMAIN c.fl :
         /\ Finished(c, id)
         /\ (Cfg.onflush /\ ~c.stopped) => id \in shown
         /\ c' = Ended(c, id, t)
         /\ shown' = shown \ {id}
         /\ fin' = IF id = 0 THEN fin
                   ELSE (id :> (IF c.stopped THEN {"any"} ELSE c.fl[id].errs)) @@ fin
    /\ UNCHANGED <<calls, res, mans, stops>>

Halt == /\ \E i \in stops : stops' = stops \ {i}
        /\ c' = Stopped(c)
        /\ UNCHANGED <<calls, res, mans, fin, shown>>

Silent == (Take \/ ((Effect \/ End \/ Halt) /\ UNCHANGED t)) /\ UNCHANGED <<tid, l>>

Next == l <= Len(Tr[tid].ev) /\ (Visible \/ Silent)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
