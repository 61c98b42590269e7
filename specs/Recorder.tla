------------------------------ MODULE Recorder ------------------------------
(***************************************************************************)
(* Recorders.  A recorder is [buf, finished, errs]: the annotations of the *)
(* events recorded so far, whether it was finished, and the failures not   *)
(* yet read.  "todo" says what a call under way still has to do:           *)
(*   <<"hand", evs>>   hand the annotations of these events, in order, to   *)
(*                     the collector, once (those of one event come as a    *)
(*                     set: fields of an event have no order)               *)
(*   <<"fail", what>>  report this failure, once; a note about it may be   *)
(*                     handed to the collector before ("noted" after)      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

New == [buf |-> <<>>, finished |-> FALSE, errs |-> <<>>]
Idle == <<"idle", "">>

\* beginning a call: the recorder and what is to be done
WithEvent(r, anns) == [r EXCEPT !.buf = Append(@, anns)]
Finishing(r) == IF r.finished THEN <<"fail", "twice">> ELSE <<"hand", r.buf>>
Finished(r) == [r EXCEPT !.finished = TRUE]
\* the same annotations in any order
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
\* anns hands over the events evs
RECURSIVE Hands(_, _)
Hands(evs, anns) ==
    IF evs = <<>> THEN anns = <<>>
    ELSE LET n == Len(Head(evs)) IN
         /\ Len(anns) >= n /\ SameBag(Head(evs), SubSeq(anns, 1, n))
         /\ Hands(Tail(evs), SubSeq(anns, n + 1, Len(anns)))
Singly(anns) == [i \in DOMAIN anns |-> <<anns[i]>>]
\* after the collector was called
Handed(err) == IF err = "" THEN Idle ELSE <<"fail", err>>
Reported(r, what, logger) == IF logger THEN r ELSE [r EXCEPT !.errs = Append(@, what)]
Read(r) == [r EXCEPT !.errs = <<>>]
=============================================================================
