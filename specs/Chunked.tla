------------------------------- MODULE Chunked -------------------------------
(***************************************************************************)
(* The chunked collector.  A state (a record) holds                        *)
(*   q, qb   : the queued collections [span, anns, at] and their size      *)
(*   fl      : the flushes under way, by id (0 = the timed one):           *)
(*             start, todo (span -> annotations), cur (span being passed   *)
(*             on, 0 = none), errs (errors so far)                         *)
(*   last    : errors of the last timed flush that nobody has seen         *)
(*   stopped : stopped                                                     *)
(*   lend    : when the last flush ended                                   *)
(* Timeout and Max are the configured bounds (0 = none).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyFun == [x \in {} |-> 0]
Start == [q |-> <<>>, qb |-> 0, fl |-> EmptyFun, last |-> {}, stopped |-> FALSE, lend |-> 0]

RECURSIVE Concat(_, _)
Concat(q, s) == IF q = <<>> THEN <<>>
                ELSE (IF Head(q).span = s THEN Head(q).anns ELSE <<>>) \o Concat(Tail(q), s)
Grouped(q) == [s \in {q[i].span : i \in 1..Len(q)} |-> Concat(q, s)]

Overflows(c, size, max) == max # 0 /\ c.qb + size > max

\* a collection is queued; the caller gets c.last
Queued(c, span, anns, size, now) ==
    [c EXCEPT !.q = Append(@, [span |-> span, anns |-> anns, at |-> now]), !.qb = @ + size, !.last = {}]
\* the queue, with that collection, is dropped
Emptied(c) == [c EXCEPT !.q = <<>>, !.qb = 0]

\* a flush takes the queue
Took(c, id, now) ==
    [c EXCEPT !.q = <<>>, !.qb = 0,
              !.fl = (id :> [start |-> now, todo |-> IF c.stopped THEN EmptyFun ELSE Grouped(c.q),
                             cur |-> 0, errs |-> {}, over |-> FALSE]) @@ @]

CanPass(c, id, span) == c.fl[id].cur = 0 /\ span \in DOMAIN c.fl[id].todo
Passing(c, id, span) ==
    [c EXCEPT !.fl[id].cur = span,
              !.fl[id].todo = [s \in DOMAIN @ \ {span} |-> @[s]]]

\* an underlying call returned
Passed(c, id, err, now, timeout) ==
    LET f == c.fl[id]
        late == timeout # 0 /\ now - f.start > timeout
        e == f.errs \cup (IF err = "" THEN {} ELSE {err}) \cup (IF late THEN {"dropped"} ELSE {})
    IN  [c EXCEPT !.fl[id] = [f EXCEPT !.cur = 0, !.errs = e, !.over = late,
                                       !.todo = IF late THEN EmptyFun ELSE @]]

Finished(c, id) == c.fl[id].cur = 0 /\ (DOMAIN c.fl[id].todo = {} \/ c.stopped)
Ended(c, id, now) ==
    [c EXCEPT !.fl = [i \in DOMAIN @ \ {id} |-> @[i]],
              !.last = IF id = 0 /\ c.fl[id].errs # {} THEN c.fl[id].errs ELSE @,
              !.lend = now]

Stopped(c) == [c EXCEPT !.stopped = TRUE]

Max2(a, b) == IF a > b THEN a ELSE b
\* nothing waits longer than the interval while no flush runs
InTime(c, now, interval) ==
    (c.fl = EmptyFun /\ ~c.stopped) => \A i \in 1..Len(c.q) : now <= Max2(c.q[i].at, c.lend) + interval
=============================================================================
