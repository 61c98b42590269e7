----------------------------- MODULE LimitTrace -----------------------------
(***************************************************************************)
(* Histories of a limited store: calls "c" and returns "r" (concurrent     *)
(* callers; with a list d of traces to delete, or empty for a collection)  *)
(* and "o", what the underlying store holds while no call is under way.    *)
(*                                                                         *)
(***************************************************************************)
EXTENDS Limit, TraceLib

VARIABLES tid, l, q,
          open,   \* calls under way: id -> [t, a, f (its deletion will fail)]
          done    \* those of them that have taken effect
vars == <<tid, l, q, open, done>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Max == Tr[tid].cfg.max

Init == /\ tid \in 1..Len(Tr) /\ l = 1 /\ q = Empty
        /\ open = [x \in {} |-> 0] /\ done = {}

E_c == /\ Ev.op = "c"
       /\ open' = (Ev.i :> [t |-> Ev.t, a |-> Ev.a, d |-> Ev.d]) @@ open
       /\ l' = l + 1 /\ UNCHANGED <<tid, q, done>>

\* a collection takes effect (just before some return, without loss of generality)
Lin == /\ Ev.op = "r"
       /\ \E i \in DOMAIN open \ done :
            /\ q' = (IF open[i].d # <<>> THEN Deleted(q, {open[i].d[k] : k \in DOMAIN open[i].d}) ELSE Collected(Max, q, open[i].t, open[i].a))
            /\ done' = done \cup {i}
       /\ UNCHANGED <<tid, l, open>>

E_r == /\ Ev.op = "r" /\ Ev.err = "" /\ ~Ev.faultC
       /\ Ev.i \in done
       /\ done' = done \ {Ev.i}
       /\ open' = [i \in DOMAIN open \ {Ev.i} |-> open[i]]
       /\ l' = l + 1 /\ UNCHANGED <<tid, q>>

\* the underlying store failed to delete: the caller is told, nothing changes
E_f == /\ Ev.op = "r" /\ Ev.err = "delete failed"
       /\ Ev.i \notin done /\ Ev.fault
       /\ (open[Ev.i].d # <<>> \/ Evicts(Max, q, open[Ev.i].t))
       /\ open' = [i \in DOMAIN open \ {Ev.i} |-> open[i]]
       /\ l' = l + 1 /\ UNCHANGED <<tid, q, done>>

\* the underlying store failed to collect: the caller is told
E_g == /\ Ev.op = "r" /\ Ev.err = "collect failed"
       /\ Ev.i \notin done /\ Ev.faultC /\ open[Ev.i].d = <<>>
       /\ q' \in CollectFailed(Max, q, open[Ev.i].t)
       /\ open' = [i \in DOMAIN open \ {Ev.i} |-> open[i]]
       /\ l' = l + 1 /\ UNCHANGED <<tid, done>>

E_o == /\ Ev.op = "o"
       /\ Len(Ev.held) = Cardinality(Shown(q))
       /\ {<<Ev.held[i].t, Ev.held[i].a>> : i \in 1..Len(Ev.held)} = View(q)
       /\ l' = l + 1 /\ UNCHANGED <<tid, q, open, done>>

\* a long history of n different traces, in short: the numbers of those held
\* from lo to hi, how many they are and how many of them are as collected
E_sum == /\ Ev.op = "sum" /\ q = Empty
         /\ Ev.lo = Oldest(Max, Ev.n) /\ Ev.hi = Ev.n
         /\ Ev.count = Ev.n - Ev.lo + 1 /\ Ev.whole = Ev.count
         /\ l' = l + 1 /\ UNCHANGED <<tid, q, open, done>>

Next == l <= Len(Tr[tid].ev) /\ (E_c \/ Lin \/ E_r \/ E_f \/ E_g \/ E_o \/ E_sum)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
