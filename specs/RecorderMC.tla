----------------------------- MODULE RecorderMC -----------------------------
EXTENDS Recorder, FiniteSets
CONSTANTS MaxOps, Logger
VARIABLES r, todo, n, out, fails, seen, given
vars == <<r, todo, n, out, fails, seen, given>>
\* n numbers the operations; event k has the single annotation k
Init == r = New /\ todo = Idle /\ n = 0 /\ out = <<>> /\ fails = 0 /\ seen = 0 /\ given = <<>>
Op == todo = Idle /\ n < MaxOps /\ n' = n + 1
Next == \/ Op /\ r' = WithEvent(r, <<n>>) /\ given' = (IF r.finished THEN given ELSE Append(given, n)) /\ UNCHANGED <<todo, out, fails, seen>>
        \/ Op /\ todo' = <<"fail", "bad event">> /\ fails' = fails + 1 /\ UNCHANGED <<r, out, seen, given>>
        \/ Op /\ todo' = Finishing(r) /\ fails' = (IF r.finished THEN fails + 1 ELSE fails)
              /\ r' = Finished(r) /\ UNCHANGED <<out, seen, given>>
        \/ Op /\ todo' = <<"hand", Singly(<<n>>)>> /\ UNCHANGED <<r, out, fails, seen, given>>
        \/ Op /\ seen' = seen + Len(r.errs) /\ r' = Read(r) /\ UNCHANGED <<todo, out, fails, given>>
        \/ /\ todo[1] = "hand" /\ out' = Append(out, [i \in DOMAIN todo[2] |-> todo[2][i][1]])
           /\ \E e \in {"", "refused"} : todo' = Handed(e) /\ fails' = (IF e = "" THEN fails ELSE fails + 1)
           /\ UNCHANGED <<r, n, seen, given>>
        \/ /\ todo[1] = "fail" /\ r' = Reported(r, todo[2], Logger) /\ todo' = Idle
           /\ seen' = (IF Logger THEN seen + 1 ELSE seen)
           /\ UNCHANGED <<n, out, fails, given>>
Spec == Init /\ [][Next]_vars
\* recorded events are handed over once, in order, by the first finish
Holding(k) == {i \in 1..Len(out) : \E j \in 1..Len(out[i]) : out[i][j] = k}
Once == \A k \in 0..MaxOps : Cardinality(Holding(k)) <= 1
Whole == (todo = Idle /\ r.finished) => \E i \in 1..Len(out) : out[i] = given
Held == (~r.finished) => \A k \in 1..Len(given) : Holding(given[k]) = {}
AllReported == todo = Idle => seen + Len(r.errs) = fails
=============================================================================
