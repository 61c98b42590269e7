--------------------------- MODULE OpenTracingGen ---------------------------
(* Operations on spans: dec are the sampling decisions of roots to come,   *)
(* fails which attempts of the collector fail.                             *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Ops, MaxSpans, N, Fails
VARIABLES ops, spans, ctxs, fails
Init == ops = <<>> /\ spans = 0 /\ ctxs = 0 /\ fails \in Fails
Add(o, k, d) == ops' = Append(ops, [o |-> o, k |-> k, d |-> d])
Next == /\ Len(ops) < N /\ UNCHANGED fails
        /\ \/ \E d \in {0, 1} : spans < MaxSpans /\ Add("root", 0, d) /\ spans' = spans + 1 /\ UNCHANGED ctxs
           \/ \E k \in 1..spans : spans < MaxSpans /\ Add("child", k, 0) /\ spans' = spans + 1 /\ UNCHANGED ctxs
           \/ \E k \in 1..ctxs : spans < MaxSpans /\ Add("cont", k, 0) /\ spans' = spans + 1 /\ UNCHANGED ctxs
           \/ \E k \in 1..spans : Add("inj", k, 0) /\ ctxs' = ctxs + 1 /\ UNCHANGED spans
           \/ \E k \in 1..spans, o \in Ops : Add(o, k, 0) /\ UNCHANGED <<spans, ctxs>>
Spec == Init /\ [][Next]_<<ops, spans, ctxs, fails>>
Emit == Len(ops) = N => PrintT("@@S " \o ToJson([ops |-> ops, fails |-> fails]))
=============================================================================
