---------------------------- MODULE OpenTracingMC ----------------------------
(* Spans of several traces, with a collector that fails at any time: what  *)
(* is collected item by item, with a note on every failure and a line on   *)
(* every lost note, or the first.                                          *)
EXTENDS OpenTracing
CONSTANTS MaxSpans, MaxOps, Verbose
VARIABLES spans, ctxs, decided, todo, fin, got, notes, lost, lines, silent, n
vars == <<spans, ctxs, decided, todo, fin, got, notes, lost, lines, silent, n>>
Init == /\ spans = <<>> /\ ctxs = {} /\ decided = <<>> /\ todo = {} /\ fin = 0
        /\ got = <<>> /\ notes = <<>> /\ lost = 0 /\ lines = 0 /\ silent = FALSE /\ n = 0
Idle == fin = 0 /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<todo, got, notes, lost, lines, silent>>
Id == Len(spans) + 1
StartRoot(d) == /\ Idle /\ Len(spans) < MaxSpans /\ UNCHANGED <<ctxs, fin>>
                /\ spans' = Append(spans, Root(Id, Id, d, "op", <<>>, "1"))
                /\ decided' = Ext(decided, Id, d)
StartChild(c) == /\ Idle /\ Len(spans) < MaxSpans /\ UNCHANGED <<ctxs, fin, decided>>
                 /\ spans' = Append(spans, Child(c, Id, "op", <<>>, "1"))
Inject(i) == /\ Idle /\ ctxs' = ctxs \cup {Context(spans[i])} /\ UNCHANGED <<spans, decided, fin>>
Bag(i, v) == /\ Idle /\ spans' = [spans EXCEPT ![i].bag = Ext(@, "b", v)] /\ UNCHANGED <<ctxs, decided, fin>>
Tag(i, v) == /\ Idle /\ spans' = [spans EXCEPT ![i].tags = Ext(@, "b", v)] /\ UNCHANGED <<ctxs, decided, fin>>
Finish(i) == /\ fin = 0 /\ n < MaxOps /\ n' = n + 1 /\ fin' = i /\ UNCHANGED <<spans, ctxs, decided, lost, lines, silent>>
             /\ got' = <<>> /\ notes' = <<>>
             /\ todo' = IF spans[i].sampled
                        THEN {<<ToString(k), Plain(spans[i], "2")[k]>> : k \in 1..5} \cup {<<"t", Ann(k, spans[i].tags[k])>> : k \in DOMAIN spans[i].tags}
                             \cup {<<"b", Ann(k, spans[i].bag[k])>> : k \in DOMAIN spans[i].bag}
                        ELSE {}
Collect(x, ok, noted) ==
    /\ fin # 0 /\ x \in todo /\ todo' = todo \ {x} /\ got' = Append(got, x[2]) /\ UNCHANGED <<spans, ctxs, decided, fin, n>>
    /\ notes' = IF ok THEN notes ELSE Append(notes, x)
    /\ LET gone == ~ok /\ ~noted IN
       /\ lost' = lost + (IF gone THEN 1 ELSE 0)
       /\ lines' = lines + (IF gone /\ (Verbose \/ ~silent) THEN 1 ELSE 0)
       /\ silent' = (silent \/ gone)
Done == /\ fin # 0 /\ todo = {} /\ fin' = 0 /\ UNCHANGED <<spans, ctxs, decided, todo, got, notes, lost, lines, silent, n>>
Next == \/ \E d \in BOOLEAN : StartRoot(d)
        \/ \E c \in ctxs \cup {Context(spans[i]) : i \in DOMAIN spans} : StartChild(c)
        \/ \E i \in DOMAIN spans : Inject(i) \/ Bag(i, "x") \/ Bag(i, "y") \/ Tag(i, "x") \/ Finish(i)
        \/ \E x \in todo, ok, noted \in BOOLEAN : (ok => noted) /\ x = (CHOOSE y \in todo : TRUE) /\ Collect(x, ok, noted)
        \/ Done
Spec == Init /\ [][Next]_vars
\* one decision for a whole trace, and a root it hangs under
OneDecision == \A i \in DOMAIN spans : spans[i].sampled = decided[spans[i].tr]
Linked == \A i \in DOMAIN spans : spans[i].pa # 0 => \E j \in DOMAIN spans : j < i /\ spans[j].sp = spans[i].pa /\ spans[j].tr = spans[i].tr
Complete == (fin # 0 /\ todo = {}) => IF spans[fin].sampled THEN AnnsOk(spans[fin], "2", got) ELSE got = <<>>
Lines == lines = IF Verbose THEN lost ELSE IF lost > 0 THEN 1 ELSE 0
=============================================================================
