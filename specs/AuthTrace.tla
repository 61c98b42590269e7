------------------------------ MODULE AuthTrace ------------------------------
(* cfg.want: user:password ("": none configured).  start arg ok: whether   *)
(* the server starts with such an argument.  has held: traces collected.   *)
(* req k t creds st chal tells same: a request and its answer: the status, *)
(* whether it is a challenge, of which traces it tells, and whether an     *)
(* unprotected server answers the same.  end held: what the server has.    *)
EXTENDS Auth, TraceLib
VARIABLES tid, l, held
vars == <<tid, l, held>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Set(s) == {s[i] : i \in DOMAIN s}
Want == Tr[tid].cfg.want
Init == tid \in 1..Len(Tr) /\ l = 1 /\ held = {}
\* a malformed user:password is refused, not ignored
Start == Ev.op = "start" /\ Ev.up = Ev.wellformed /\ UNCHANGED held
Has == Ev.op = "has" /\ held' = held \cup Set(Ev.held)
Served == /\ Ev.op = "req" /\ May(Want, Ev.creds) /\ Ev.same /\ ~Ev.chal
          /\ Ev.odd \/ (Ev.st = 200) = Good(held, Ev.k, Ev.t)
          /\ Ev.odd \/ Set(Ev.tells) = Tells(held, Ev.k, Ev.t)
          /\ held' = IF Ev.odd THEN held ELSE After(held, Ev.k, Ev.t)
Denied == /\ Ev.op = "req" /\ ~Must(Want, Ev.creds)
          /\ Ev.st = 401 /\ Ev.chal /\ Ev.tells = <<>> /\ UNCHANGED held
Final == Ev.op = "end" /\ Set(Ev.held) = held /\ UNCHANGED held
Next == /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ (Start \/ Has \/ Served \/ Denied \/ Final)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
