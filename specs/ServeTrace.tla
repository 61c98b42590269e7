------------------------------ MODULE ServeTrace ------------------------------
(* send c t s p a: a packet is sent on connection c.  seen n: the spans the *)
(* server shows.  saved: since then the file was replaced twice.  kill.     *)
(* up n: it is started again and shows n.                                   *)
EXTENDS Serve, TraceLib
VARIABLES tid, l, P, conn, base, vis, safe, life
vars == <<tid, l, P, conn, base, vis, safe, life>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Set(s) == {s[i] : i \in DOMAIN s}
Has(n) == LET S == UNION {{<<n[i].s, n[i].a[j]>> : j \in DOMAIN n[i].a} : i \in DOMAIN n}
          IN  {k \in DOMAIN P : <<P[k].s, P[k].a[1]>> \in S}
Shows(n, K) == Len(n) = Cardinality(Set(n)) /\ Set(n) = Nodes(P, K)
\* (TRUE = ...: a plain expression, which TLC does not take apart as an action)
\* what a kill lost does not come back
Ours(K) == \A k \in K \ base : conn[k] \div 100 = life
Init == /\ tid \in 1..Len(Tr) /\ l = 1 /\ P = <<>> /\ conn = <<>> /\ base = {} /\ vis = {} /\ safe = {} /\ life = 0
Send == /\ Ev.op = "send" /\ P' = Append(P, [t |-> Ev.t, s |-> Ev.s, p |-> Ev.p, a |-> Ev.a])
        /\ conn' = Append(conn, life * 100 + Ev.c) /\ UNCHANGED <<base, vis, safe, life>>
Seen == /\ Ev.op = "seen"
        /\ LET K == Has(Ev.n) IN /\ Shows(Ev.n, K) /\ TRUE = (Reached(K, base, conn) /\ Ours(K)) /\ vis \subseteq K /\ vis' = K
        /\ UNCHANGED <<P, conn, base, safe, life>>
Saved == Ev.op = "saved" /\ safe' = vis /\ UNCHANGED <<P, conn, base, vis, life>>
Kill == Ev.op = "kill" /\ UNCHANGED <<P, conn, base, vis, safe, life>>
Up == /\ Ev.op = "up" /\ Ev.ok
      /\ LET K == Has(Ev.n) IN /\ Shows(Ev.n, K) /\ TRUE = (Reached(K, base, conn) /\ Ours(K)) /\ safe \subseteq K
                               /\ base' = K /\ vis' = K /\ safe' = K
      /\ life' = life + 1 /\ UNCHANGED <<P, conn>>
Next == /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ (Send \/ Seen \/ Saved \/ Kill \/ Up)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
