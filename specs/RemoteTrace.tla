----------------------------- MODULE RemoteTrace -----------------------------
(***************************************************************************)
(* Recorded runs of the remote collector (specification Remote) against a  *)
(* listener that breaks connections.  What each connection received is     *)
(* known from the start (cfg.conns): msgs, the calls whose messages arrived *)
(* whole, in order; tail, the call of which a part arrived after them (0   *)
(* nothing, -1 one that cannot be told, -2 bytes that belong to no call);  *)
(* killed, whether we broke it; hs, whether it failed while connecting.    *)
(*  cc i / cr i err  a call and its return     kill k   k is about to break *)
(*  down / up        nothing listens / it does again     close   Close()   *)
(***************************************************************************)
EXTENDS Integers, TraceLib
VARIABLES tid, l, cur, n, got, tailed, dead, down, pend, res, size
vars == <<tid, l, cur, n, got, tailed, dead, down, pend, res, size>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Conns == Tr[tid].cfg.conns

Init == /\ tid \in 1..Len(Tr) /\ l = 1 /\ cur = 0 /\ n = 0
        /\ got = [k \in 1..Len(Conns) |-> 0] /\ tailed = {}
        /\ dead = {} /\ down = FALSE /\ pend = {} /\ res = [i \in {} |-> FALSE]
        /\ size = [i \in {} |-> 0]

\* ways in which sending i on k can have gone, given (g, t): how much of each
\* connection has been explained and whose tail has been
Try(g, t, k, i) ==
  LET c == Conns[k]
      all == g[k] = Len(c.msgs)
  IN  (IF ~all /\ c.msgs[g[k] + 1] = i /\ k \notin t
       THEN {[g |-> [g EXCEPT ![k] = @ + 1], t |-> t, err |-> e] : e \in IF k \in dead THEN {TRUE, FALSE} ELSE {FALSE}} ELSE {})
      \cup
      (IF all /\ c.killed /\ (k \in t \/ c.tail \in {0, -1, i})
       THEN {[g |-> g, t |-> t \cup {k}, err |-> e] :
               e \in (IF k \in dead THEN {TRUE} ELSE {})
                     \* reported as sent, but lost on the way: no more than the kernel holds
                     \cup (IF size[i] - (IF k \in t THEN 0 ELSE c.tlen) <= Tr[tid].cfg.buf THEN {FALSE} ELSE {})} ELSE {})

Outcomes(i) ==
  LET first == IF cur = 0 THEN {[g |-> got, t |-> tailed, err |-> TRUE]} ELSE Try(got, tailed, cur, i)
      over == {[g |-> f.g, t |-> f.t, cur |-> cur, n |-> n, err |-> FALSE] : f \in {x \in first : ~x.err}}
      again == {x \in first : x.err}
  IN  over \cup UNION {
        IF down THEN {[g |-> f.g, t |-> f.t, cur |-> 0, n |-> n, err |-> TRUE]}
        ELSE IF n + 1 > Len(Conns) THEN {}
        ELSE IF Conns[n + 1].hs THEN {[g |-> f.g, t |-> f.t, cur |-> 0, n |-> n + 1, err |-> TRUE]}
        ELSE {[g |-> s.g, t |-> s.t, cur |-> n + 1, n |-> n + 1, err |-> s.err] : s \in Try(f.g, f.t, n + 1, i)}
        : f \in again}

Effect == /\ \E i \in pend : \E o \in Outcomes(i) :
               /\ got' = o.g /\ tailed' = o.t /\ cur' = o.cur /\ n' = o.n
               /\ pend' = pend \ {i}
               /\ res' = [j \in DOMAIN res \cup {i} |-> IF j = i THEN o.err ELSE res[j]]
          /\ UNCHANGED <<tid, l, dead, down, size>>

Explained(k) == got[k] = Len(Conns[k].msgs) /\ Conns[k].tail # -2
                /\ (Conns[k].tail # 0 => Conns[k].killed /\ k \in tailed)
Visible ==
    /\ l' = l + 1 /\ UNCHANGED <<tid, n, got, tailed>>
    /\ CASE Ev.op = "cc" -> pend' = pend \cup {Ev.i} /\ size' = (Ev.i :> Ev.size) @@ size /\ UNCHANGED <<cur, dead, down, res>>
         [] Ev.op = "cr" -> /\ Ev.i \in DOMAIN res /\ res[Ev.i] = Ev.err
                            /\ res' = [j \in DOMAIN res \ {Ev.i} |-> res[j]]
                            /\ UNCHANGED <<cur, dead, down, pend, size>>
         [] Ev.op = "kill" -> dead' = dead \cup {Ev.k} /\ UNCHANGED <<cur, down, pend, res, size>>
         [] Ev.op = "down" -> down' = TRUE /\ UNCHANGED <<cur, dead, pend, res, size>>
         [] Ev.op = "up" -> down' = FALSE /\ UNCHANGED <<cur, dead, pend, res, size>>
         [] Ev.op = "close" -> cur' = 0 /\ UNCHANGED <<down, dead, pend, res, size>>
         [] Ev.op = "z" -> /\ n = Len(Conns) /\ \A k \in 1..n : Explained(k)
                           /\ UNCHANGED <<cur, dead, down, pend, res, size>>
         [] OTHER -> FALSE
Next == l <= Len(Tr[tid].ev) /\ (Visible \/ Effect)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
