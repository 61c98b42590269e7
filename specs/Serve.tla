--------------------------------- MODULE Serve ---------------------------------
(***************************************************************************)
(* A server with a store file over several lives.  Packets are numbered;   *)
(* packet k is P[k] = [t, s, p, a]: annotations a for the span s, of trace *)
(* t and below p.  What a server has is a set K of packets; it shows the   *)
(* spans Nodes(P, K).  conn[k] is the connection that packet k came on;    *)
(* what comes on a connection comes in order.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Cat(_, _, _)
Cat(f, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN f[i]
                ELSE LET m == (i + j) \div 2 IN Cat(f, i, m) \o Cat(f, m + 1, j)
\* the annotations of span s, as far as they are among the packets K
Concat(P, K, s) == Cat([k \in 1..Len(P) |-> IF k \in K /\ P[k].s = s THEN P[k].a ELSE <<>>], 1, Len(P))
Nodes(P, K) == {[t |-> x[1], s |-> x[2], p |-> x[3], a |-> Concat(P, K, x[2])] : x \in {<<P[k].t, P[k].s, P[k].p>> : k \in K}}

\* K holds base, and of every connection a first part of what came on it
Reached(K, base, conn) ==
    /\ base \subseteq K /\ K \subseteq base \cup DOMAIN conn
    /\ \A c \in {conn[k] : k \in K \ base} :
          LET last == CHOOSE k \in K \ base : conn[k] = c /\ \A j \in K \ base : conn[j] = c => j <= k
          IN  \A j \in DOMAIN conn : j < last /\ conn[j] = c => j \in K
=============================================================================
