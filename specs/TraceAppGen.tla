------------------------------ MODULE TraceAppGen ------------------------------
(* Histories for the web applications: c(ollect), e(xport), u(pload),      *)
(* o(pen) a permalink, m(alformed upload), p(arallel uploads).  d and e    *)
(* are documents in the order in which they were exported.                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Inst, Traces, Kinds, N
VARIABLES ops, has, nd
Op(o, i, t, d, e) == [o |-> o, i |-> i, t |-> t, d |-> d, e |-> e]
Init == /\ \E t \in Traces : ops = <<Op("c", 1, t, 0, 0)>> /\ has = {<<1, t>>} /\ nd = 0
Next == /\ Len(ops) < N
        /\ \/ /\ "c" \in Kinds /\ UNCHANGED nd
              /\ \E i \in Inst, t \in Traces : ops' = Append(ops, Op("c", i, t, 0, 0)) /\ has' = has \cup {<<i, t>>}
           \/ /\ "e" \in Kinds /\ nd' = nd + 1 /\ UNCHANGED has
              /\ \E i \in Inst, t \in Traces : <<i, t>> \in has /\ ops' = Append(ops, Op("e", i, t, 0, 0))
           \/ /\ "u" \in Kinds /\ UNCHANGED <<has, nd>>
              /\ \E i \in Inst, d \in 1..nd, e \in 0..nd : d # e /\ ops' = Append(ops, Op("u", i, 0, d, e))
           \/ /\ UNCHANGED <<has, nd>>
              /\ \E o \in Kinds \cap {"o", "m", "p"}, i \in Inst, d \in 1..nd : ops' = Append(ops, Op(o, i, 0, d, 0))
Spec == Init /\ [][Next]_<<ops, has, nd>>
Emit == (Len(ops) = N /\ ops[N].o \notin {"c", "e"}) => PrintT("@@S " \o ToJson([ops |-> ops]))
=============================================================================
