-------------------------- MODULE OpenTracingTrace --------------------------
(* Spans are numbered as they start.  start: under nothing, span ref or    *)
(* context ref; asked: the traces the sampling function was asked about,   *)
(* dec: its answer.  fin: sent is what was given to the collector, each    *)
(* with its span IDs and the error it returned.                            *)
EXTENDS OpenTracing, TraceLib
VARIABLES tid, l, spans, ctxs, silent
vars == <<tid, l, spans, ctxs, silent>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Init == /\ tid \in 1..Len(Tr) /\ l = 1 /\ spans = <<>> /\ ctxs = <<>>
        /\ silent = [g \in 1..Len(Tr[tid].cfg.verbose) |-> FALSE]
Fun(kvs) == FieldMap(kvs)
Start ==
    /\ Ev.op = "start"
    /\ \A i \in DOMAIN spans : spans[i].sp # Ev.sp
    /\ LET s == IF Ev.from = "root" THEN Root(Ev.tr, Ev.sp, Ev.dec, Ev.name, Fun(Ev.tags), Ev.start)
                ELSE Child(IF Ev.from = "span" THEN Context(spans[Ev.ref]) ELSE ctxs[Ev.ref], Ev.sp, Ev.name, Fun(Ev.tags), Ev.start)
       IN /\ s.tr = Ev.tr
          /\ Ev.asked = (IF Ev.from = "root" /\ Tr[tid].cfg.asks THEN <<Ev.tr>> ELSE <<>>)
          /\ spans' = Append(spans, s)
    /\ UNCHANGED <<ctxs, silent>>
Change ==
    /\ Ev.op \in {"tag", "bag", "name", "prio", "log"}
    /\ spans' = CASE Ev.op = "tag" -> [spans EXCEPT ![Ev.s].tags = Ext(@, Ev.k, Ev.v)]
                  [] Ev.op = "bag" -> [spans EXCEPT ![Ev.s].bag = Ext(@, Ev.k, Ev.v)]
                  [] Ev.op = "name" -> [spans EXCEPT ![Ev.s].name = Ev.v]
                  [] Ev.op = "prio" -> [spans EXCEPT ![Ev.s].sampled = Ev.on]
                  [] Ev.op = "log" -> [spans EXCEPT ![Ev.s].logs = Append(@, [f |-> Ev.f, t |-> Ev.t])]
    /\ UNCHANGED <<ctxs, silent>>
\* a span handed to the recorder as it is
Raw == /\ Ev.op = "raw" /\ UNCHANGED <<ctxs, silent>>
       /\ spans' = Append(spans, [tr |-> Ev.tr, sp |-> Ev.sp, pa |-> Ev.pa, sampled |-> Ev.sampled, bag |-> Fun(Ev.bag), tags |-> Fun(Ev.tags),
                                  name |-> Ev.name, start |-> Ev.start, logs |-> Ev.logs])
Inject == /\ Ev.op = "inj" /\ Ev.err = "" /\ ctxs' = Append(ctxs, Context(spans[Ev.s])) /\ UNCHANGED <<spans, silent>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Finish ==
    /\ Ev.op = "fin" /\ UNCHANGED <<spans, ctxs>>
    /\ LET s == [spans[Ev.s] EXCEPT !.logs = @ \o Ev.logs]
           isNote(x) == x.note # ""
           isItem(x) == x.note = ""
           hasErr(x) == x.err # ""
           notes == SelectSeq(Ev.sent, isNote)
           items == SelectSeq(Ev.sent, isItem)
           failed == SelectSeq(items, hasErr)
           lost == Len(SelectSeq(notes, hasErr))
       IN IF ~s.sampled THEN Ev.sent = <<>> /\ Ev.lines = 0 /\ UNCHANGED silent
          ELSE /\ \A i \in DOMAIN Ev.sent : Ev.sent[i].id = <<s.tr, s.sp, s.pa>>
               /\ AnnsOk(s, Ev.end, Cat([i \in DOMAIN items |-> items[i].a]))
               /\ LogsOk(s, Cat([i \in DOMAIN items |-> items[i].l]))
               /\ FailuresOk([i \in DOMAIN failed |-> failed[i].err], [i \in DOMAIN notes |-> notes[i].note], lost, Ev.lines,
                             Tr[tid].cfg.verbose[Ev.g], silent[Ev.g])
               /\ silent' = [silent EXCEPT ![Ev.g] = @ \/ lost > 0]
\* several spans finished at the same time: in all, lost notes and lines
Storm == /\ Ev.op = "storm" /\ UNCHANGED <<spans, ctxs, silent>>
         /\ Ev.bad = 0
         /\ Ev.lines = (IF Ev.verbose THEN Ev.lost ELSE IF Ev.lost > 0 THEN 1 ELSE 0)
Next == /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ (Start \/ Raw \/ Change \/ Inject \/ Finish \/ Storm)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
