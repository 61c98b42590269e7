---------------------------- MODULE RecorderTrace ----------------------------
(***************************************************************************)
(* Recorded runs of recorders.                                             *)
(*  call k o anns   an operation on recorder k (o: E event with these      *)
(*                  annotations, B event that cannot be marshalled (err),  *)
(*                  F finish, A raw annotations, C child)                  *)
(*  col k anns err / note k err   the collector is called for recorder k   *)
(*  log what        the logger is called                                   *)
(*  ret             the operation returns (o = R: with these errors)       *)
(***************************************************************************)
EXTENDS Recorder, TraceLib
VARIABLES tid, l, rs, k, todo, noted
vars == <<tid, l, rs, k, todo, noted>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Logger(j) == Tr[tid].cfg.logger[j]
Init == /\ tid \in 1..Len(Tr) /\ l = 1 /\ rs = <<New>> /\ k = 0 /\ todo = Idle /\ noted = FALSE
Next ==
    /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
    /\ CASE Ev.op = "call" ->
              /\ todo = Idle /\ k = 0 /\ k' = Ev.k /\ noted' = FALSE
              /\ CASE Ev.o = "E" -> rs' = [rs EXCEPT ![Ev.k] = WithEvent(@, Ev.anns)] /\ UNCHANGED todo
                   [] Ev.o = "B" -> todo' = <<"fail", Ev.err>> /\ UNCHANGED rs
                   [] Ev.o = "F" -> todo' = Finishing(rs[Ev.k]) /\ rs' = [rs EXCEPT ![Ev.k] = Finished(@)]
                   [] Ev.o = "A" -> todo' = <<"hand", Singly(Ev.anns)>> /\ UNCHANGED rs
                   [] OTHER -> UNCHANGED <<rs, todo>>
         [] Ev.op = "col" -> /\ Ev.k = k /\ todo[1] = "hand" /\ Hands(todo[2], Ev.anns)
                             /\ todo' = Handed(Ev.err) /\ UNCHANGED <<rs, k, noted>>
         [] Ev.op = "note" -> /\ Ev.k = k /\ todo[1] = "fail" /\ ~noted /\ noted' = TRUE
                              /\ UNCHANGED <<rs, k, todo>>
         [] Ev.op = "log" -> /\ k # 0 /\ Logger(k) /\ todo[1] = "fail" /\ Ev.what = todo[2]
                             /\ todo' = Idle /\ UNCHANGED <<rs, k, noted>>
         [] Ev.op = "ret" ->
              LET r1 == IF todo[1] = "fail" /\ ~Logger(k) THEN Reported(rs[k], todo[2], FALSE) ELSE rs[k]
              IN  /\ k = Ev.k
                  /\ todo = Idle \/ (todo[1] = "fail" /\ ~Logger(k))
                  /\ todo' = Idle /\ k' = 0 /\ UNCHANGED noted
                  /\ CASE Ev.o = "R" -> Ev.errs = r1.errs /\ rs' = [rs EXCEPT ![k] = Read(r1)]
                       [] Ev.o = "C" -> /\ Ev.ok /\ rs' = Append(rs, New)
                       [] OTHER -> rs' = [rs EXCEPT ![k] = r1]
         [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
