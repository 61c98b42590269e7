------------------------------ MODULE CmdLineMC ------------------------------
(***************************************************************************)
(* Senders and a server that comes and goes.  A sender records one span    *)
(* after the other; a span is handed over when it is finished, and the     *)
(* error then is kept until it is looked for: After the span is finished,  *)
(* or (as a control) before.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Senders, Spans, Flips, After
VARIABLES up, flips, pc, i, err, rc, has
vars == <<up, flips, pc, i, err, rc, has>>
Init == /\ up \in BOOLEAN /\ flips = 0 /\ has = {}
        /\ pc = [p \in Senders |-> "record"] /\ i = [p \in Senders |-> 1]
        /\ err = [p \in Senders |-> FALSE] /\ rc = [p \in Senders |-> -1]
Flip == flips < Flips /\ flips' = flips + 1 /\ up' = ~up /\ UNCHANGED <<pc, i, err, rc, has>>
Exit(p, c) == pc' = [pc EXCEPT ![p] = "done"] /\ rc' = [rc EXCEPT ![p] = c]
Record(p) == /\ pc[p] = "record" /\ UNCHANGED <<up, flips, i, has>>
             /\ IF ~After /\ err[p] THEN Exit(p, 1) /\ UNCHANGED err
                ELSE pc' = [pc EXCEPT ![p] = "finish"] /\ err' = [err EXCEPT ![p] = FALSE] /\ UNCHANGED rc
Finish(p) == /\ pc[p] = "finish" /\ UNCHANGED <<up, flips, rc, i>>
             /\ pc' = [pc EXCEPT ![p] = "check"]
             /\ has' = IF up THEN has \cup {<<p, i[p]>>} ELSE has
             /\ err' = IF After THEN [err EXCEPT ![p] = ~up] ELSE [err EXCEPT ![p] = FALSE] \* (the next span has its own)
Check(p) == /\ pc[p] = "check" /\ UNCHANGED <<up, flips, err, has>>
            /\ IF err[p] THEN Exit(p, 1) /\ UNCHANGED i
               ELSE IF i[p] = Spans THEN Exit(p, 0) /\ UNCHANGED i
               ELSE pc' = [pc EXCEPT ![p] = "record"] /\ i' = [i EXCEPT ![p] = @ + 1] /\ UNCHANGED rc
Next == Flip \/ \E p \in Senders : Record(p) \/ Finish(p) \/ Check(p)
Spec == Init /\ [][Next]_vars
Honest == \A p \in Senders : rc[p] = 0 => \A k \in 1..Spans : <<p, k>> \in has
Nothing == \A x \in has : x[2] <= i[x[1]]
=============================================================================
