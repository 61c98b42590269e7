------------------------------- MODULE CmdLine -------------------------------
(***************************************************************************)
(* The command line.  A sample trace is a chain of spans [s, e, d, k, n,   *)
(* t]: from s to e in milliseconds from the trace's start, d deep, with k  *)
(* children, n names and t timespans; the first is the root, the others    *)
(* divide its time between them, in order.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

PerSend == 60
Sample(v) ==
    /\ Len(v) \in 4..7
    /\ \A i \in DOMAIN v : v[i].n = 1 /\ v[i].t = 1 /\ v[i].d = i - 1 /\ v[i].k = (IF i = Len(v) THEN 0 ELSE 1)
    /\ v[1].s = 0 /\ v[2].s = 0 /\ v[Len(v)].e = v[1].e
    /\ \A i \in 2..Len(v) : v[i].s <= v[i].e /\ (i > 2 => v[i].s = v[i - 1].e)

\* a send that succeeds is one whose server and way to reach it exist
Good(kind, tls) == kind \in {"sample", "many"} \/ (kind = "tcp" /\ ~tls) \/ (kind = "tls" /\ tls)
\* (what is sent in the clear to a server that wants TLS may be lost unnoticed,
\* as is what is cut off at the end)
Unsure(kind, tls) == kind = "tcp" /\ tls
\* what a send leaves: k of them at the same time, with exit codes rc
Sent(kind, tls, k, rc, v, kept) ==
    /\ kept
    /\ IF Good(kind, tls) THEN /\ \A i \in DOMAIN rc : rc[i] = 0
                               /\ Len(v) = PerSend * k /\ \A i \in DOMAIN v : Sample(v[i])
       ELSE /\ v = <<>>
            /\ Unsure(kind, tls) \/ \A i \in DOMAIN rc : rc[i] # 0

\* A trace that cannot be d old is there; one that was older than d when a
\* trace came, the first for longer than d (gap), is deleted then.  then and
\* now are the least age it had then and the greatest it has now.
Aged(d, t, then, now, gap, there) ==
    /\ (d = 0 \/ now < d) => there
    /\ (d > 0 /\ then > d /\ gap > d) => ~there
=============================================================================
