------------------------------ MODULE PipelineMC ------------------------------
(***************************************************************************)
(* Pieces 1..Len(Shape) are finished by clients, queued, flushed (by hand   *)
(* or by the clock, also both at once), carried and stored; a flush fails   *)
(* when the server cannot be reached, and its pieces are lost.  A client    *)
(* knows which flush failed.  Requeue: a wrong design that puts all pieces  *)
(* of a failed flush back.                                                  *)
(***************************************************************************)
EXTENDS Pipeline, TLC
CONSTANTS Clients, Fails, Requeue, Shapes
VARIABLES P, fin, queue, fly, wire, store, sure, may, left, got
vars == <<P, fin, queue, fly, wire, store, sure, may, left, got>>
Shape == IF Shapes = 1 THEN << <<1, 0>>, <<2, 1>>, <<3, 2>> >>            \* a chain
         ELSE << <<1, 0>>, <<2, 1>>, <<2, 1>>, <<3, 1>> >>                 \* a span finished twice (in two processes)
Init == /\ P = [k \in DOMAIN Shape |-> [t |-> 1, s |-> Shape[k][1], p |-> Shape[k][2], a |-> <<k>>]]
        /\ fin = {} /\ queue = [c \in Clients |-> {}] /\ wire = [c \in Clients |-> <<>>]
        /\ fly = [c \in Clients |-> <<>>]  \* flushes under way: [todo, all, err, hand]
        /\ store = <<>> /\ sure = {} /\ may = {} /\ left = Fails /\ got = {}
Finish(c, k) == /\ k \notin fin /\ fin' = fin \cup {k} /\ queue' = [queue EXCEPT ![c] = @ \cup {k}]
                /\ UNCHANGED <<P, fly, wire, store, sure, may, left, got>>
Flush(c, hand) == /\ Len(fly[c]) < 2
                  /\ fly' = [fly EXCEPT ![c] = Append(@, [todo |-> queue[c], all |-> queue[c], err |-> FALSE, hand |-> hand,
                                                          cover |-> {k \in fin : k \in queue[c]}])]
                  /\ queue' = [queue EXCEPT ![c] = {}]
                  /\ UNCHANGED <<P, fin, wire, store, sure, may, left, got>>
Send(c, f, k) == /\ f \in DOMAIN fly[c] /\ k \in fly[c][f].todo
                 /\ fly' = [fly EXCEPT ![c][f].todo = @ \ {k}]
                 /\ wire' = [wire EXCEPT ![c] = Append(@, k)]
                 /\ UNCHANGED <<P, fin, queue, store, sure, may, left, got>>
SendFails(c, f, k) == /\ f \in DOMAIN fly[c] /\ k \in fly[c][f].todo /\ left > 0 /\ left' = left - 1
                      /\ fly' = [fly EXCEPT ![c][f].todo = @ \ {k}, ![c][f].err = TRUE]
                      /\ UNCHANGED <<P, fin, queue, wire, store, sure, may, got>>
Without(q, f) == [i \in 1..(Len(q) - 1) |-> IF i < f THEN q[i] ELSE q[i + 1]]
Flushed(c, f) == /\ f \in DOMAIN fly[c] /\ fly[c][f].todo = {}
                 /\ IF fly[c][f].err THEN /\ may' = may \cup fly[c][f].all /\ UNCHANGED sure
                                          /\ queue' = IF Requeue THEN [queue EXCEPT ![c] = @ \cup fly[c][f].all] ELSE queue
                    ELSE sure' = sure \cup fly[c][f].cover /\ UNCHANGED <<may, queue>>
                 /\ fly' = [fly EXCEPT ![c] = Without(@, f)]
                 /\ UNCHANGED <<P, fin, wire, store, left, got>>
Store(c) == /\ wire[c] # <<>> /\ store' = Append(store, Head(wire[c])) /\ wire' = [wire EXCEPT ![c] = Tail(@)]
            /\ UNCHANGED <<P, fin, queue, fly, sure, may, left, got>>
Next == \E c \in Clients : \/ \E k \in DOMAIN Shape : Finish(c, k)
                           \/ \E h \in BOOLEAN : Flush(c, h)
                           \/ \E f \in 1..2, k \in DOMAIN Shape : Send(c, f, k) \/ SendFails(c, f, k)
                           \/ \E f \in 1..2 : Flushed(c, f)
                           \/ Store(c)
Spec == Init /\ [][Next]_vars
\* the annotations shown for a span
Shown(s) == SelectSeq(store, LAMBDA k : P[k].s = s)
Pieces(s) == {k \in DOMAIN P : P[k].s = s}
NothingElse == \A x \in {P[k].s : k \in DOMAIN P} : Within(Shown(x), P, Pieces(x) \cap fin)
Quiet == \A c \in Clients : queue[c] = {} /\ fly[c] = <<>> /\ wire[c] = <<>>
Complete == Quiet => /\ fin \subseteq sure \cup may
                     /\ \A s \in {P[k].s : k \in DOMAIN P} :
                          \E M \in SUBSET (may \cap Pieces(s)) : Holds(Shown(s), P, M \cup (sure \cap Pieces(s)))
Bound == TRUE
=============================================================================
