------------------------------ MODULE ChunkedMC ------------------------------
(* The chunked collector with its timer, concurrent manual flushes and a    *)
(* ghost account of every collection.                                       *)
EXTENDS Chunked
CONSTANTS Spans, MaxN, Horizon, Interval, Timeout, Max, Sizes, Manual

VARIABLES c, now, n,
          timer,     \* when the timer fires, -1 before the start
          fate,      \* collection -> "queued", "taken", "passed", "overflow", "timeout", "stopped"
          dest,      \* collection -> flush it is in
          told,      \* errors handed to callers
          ncalls     \* underlying calls: set of [flush instance, span]
vars == <<c, now, n, timer, fate, dest, told, ncalls>>

Init == /\ c = Start /\ now = 0 /\ n = 0 /\ timer = -1
        /\ fate = EmptyFun /\ dest = EmptyFun /\ told = <<>> /\ ncalls = {}

In(cc) == {cc.q[i].anns[1] : i \in 1..Len(cc.q)}

Collect(s, z) ==
    /\ n < MaxN /\ n' = n + 1
    /\ timer' = IF timer = -1 /\ ~c.stopped THEN now + Interval ELSE timer
    /\ IF c.stopped THEN /\ fate' = (n + 1 :> "stopped") @@ fate /\ UNCHANGED <<c, told>>
       ELSE IF Overflows(c, z, Max)
       THEN /\ fate' = (n + 1 :> "overflow") @@ [i \in DOMAIN fate |-> IF i \in In(c) THEN "overflow" ELSE fate[i]]
            /\ c' = Emptied(c) /\ UNCHANGED told
       ELSE /\ fate' = (n + 1 :> "queued") @@ fate
            /\ told' = (IF c.last = {} THEN told ELSE Append(told, c.last))
            /\ c' = Queued(c, s, <<n + 1>>, z, now)
    /\ UNCHANGED <<now, dest, ncalls>>

Take(id) ==
    /\ id \notin DOMAIN c.fl
    /\ IF id = 0 THEN timer = now ELSE TRUE
    /\ timer' = IF id = 0 THEN -2 ELSE timer    \* the timer waits for the flush
    /\ c' = Took(c, id, now)
    /\ fate' = [i \in DOMAIN fate |-> IF i \in In(c) THEN (IF c.stopped THEN "stopped" ELSE "taken") ELSE fate[i]]
    /\ dest' = [i \in In(c) |-> id] @@ dest
    /\ UNCHANGED <<now, n, told, ncalls>>

Pass(id, s) ==
    /\ id \in DOMAIN c.fl /\ CanPass(c, id, s)
    /\ ncalls' = ncalls \cup {<<c.fl[id].todo[s]>>}
    /\ \A i \in 1..Len(c.fl[id].todo[s]) : fate[c.fl[id].todo[s][i]] = "taken"
    /\ LET as == {c.fl[id].todo[s][i] : i \in 1..Len(c.fl[id].todo[s])}
       IN  fate' = [i \in DOMAIN fate |-> IF i \in as THEN "passed" ELSE fate[i]]
    /\ c' = Passing(c, id, s)
    /\ UNCHANGED <<now, n, timer, dest, told>>

Return(id, err) ==
    /\ id \in DOMAIN c.fl /\ c.fl[id].cur # 0
    /\ c' = Passed(c, id, err, now, Timeout)
    /\ LET all == {i \in DOMAIN fate : fate[i] = "taken" /\ i \in DOMAIN dest /\ dest[i] = id}
       IN  fate' = IF c'.fl[id].over THEN [i \in DOMAIN fate |-> IF i \in all THEN "timeout" ELSE fate[i]] ELSE fate
    /\ UNCHANGED <<now, n, timer, dest, told, ncalls>>

End(id) ==
    /\ id \in DOMAIN c.fl /\ Finished(c, id)
    /\ told' = (IF id # 0 /\ c.fl[id].errs # {} THEN Append(told, c.fl[id].errs) ELSE told)
    /\ c' = Ended(c, id, now)
    /\ timer' = (IF id = 0 THEN now + Interval ELSE timer)
    /\ LET all == {i \in DOMAIN fate : fate[i] = "taken" /\ i \in DOMAIN dest /\ dest[i] = id}
       IN  fate' = [i \in DOMAIN fate |-> IF i \in all THEN "stopped" ELSE fate[i]]
    /\ UNCHANGED <<now, n, dest, ncalls>>

Stop == /\ c' = Stopped(c) /\ UNCHANGED <<now, n, timer, fate, dest, told, ncalls>>

\* time passes only inside underlying calls and while the timer is not due
Tick == /\ now < Horizon /\ now' = now + 1
        /\ timer # now \/ c.stopped
        /\ \A id \in DOMAIN c.fl : c.fl[id].cur # 0
        /\ UNCHANGED <<c, n, timer, fate, dest, told, ncalls>>

Next == \/ \E s \in Spans, z \in Sizes : Collect(s, z)
        \/ \E id \in {0} \cup Manual : Take(id) \/ End(id) \/ \E s \in Spans : Pass(id, s)
        \/ \E id \in {0} \cup Manual, e \in {"", "E"} : Return(id, e)
        \/ Stop \/ Tick
Spec == Init /\ [][Next]_vars

Account == \A i \in DOMAIN fate :
    /\ fate[i] = "queued" <=> i \in In(c)
    /\ fate[i] = "taken" => \E id \in DOMAIN c.fl : \E s \in DOMAIN c.fl[id].todo :
                               \E k \in 1..Len(c.fl[id].todo[s]) : c.fl[id].todo[s][k] = i
OncePerSpan == \A x, y \in ncalls : x # y => {x[1][i] : i \in 1..Len(x[1])} \cap {y[1][i] : i \in 1..Len(y[1])} = {}
BoundedQ == Max # 0 => c.qb <= Max
OnTime == InTime(c, now, Interval)
InOrder == \A x \in ncalls : \A i, j \in 1..Len(x[1]) : i < j => x[1][i] < x[1][j]
Final == [][\A x \in ncalls' \ ncalls : ~c.stopped \/ c.fl # EmptyFun]_vars
=============================================================================
