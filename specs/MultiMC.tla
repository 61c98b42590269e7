------------------------------- MODULE MultiMC -------------------------------
(* What follows from the definitions of Multi, for up to MaxParts parts.   *)
EXTENDS Multi
CONSTANTS MaxParts, Traces, MaxOps
VARIABLES parts, all, n
vars == <<parts, all, n>>
\* all: what was collected into the combined store without an error
Init == /\ \E k \in 0..MaxParts : parts = [i \in 1..k |-> [has |-> [t \in Traces |-> <<>>], c |-> "", t |-> "", l |-> ""]]
        /\ all = [t \in Traces |-> <<>>] /\ n = 0
Collect(t) == /\ parts' = Collected(parts, t, n)
              /\ all' = IF CollectErr(parts) = "" THEN [all EXCEPT ![t] = Append(@, n)] ELSE all
Direct(i, t) == i \in DOMAIN parts /\ parts' = [parts EXCEPT ![i] = Put(@, t, n)] /\ UNCHANGED all
Fail(i, f) == /\ i \in DOMAIN parts /\ UNCHANGED all
              /\ parts' = CASE f = "c" -> [parts EXCEPT ![i].c = IF @ = "" THEN "err" ELSE ""]
                            [] f = "t" -> [parts EXCEPT ![i].t = IF @ = "" THEN "err" ELSE ""]
                            [] f = "l" -> [parts EXCEPT ![i].l = IF @ = "" THEN "err" ELSE ""]
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E t \in Traces : Collect(t)
           \/ \E i \in 1..MaxParts, t \in Traces : Direct(i, t)
           \/ \E i \in 1..MaxParts, f \in {"c", "t", "l"} : Fail(i, f)
Spec == Init /\ [][Next]_vars
Subseq(s, t) == \* s is a subsequence of t (all elements are distinct)
    \A i, j \in DOMAIN s : i <= j => \E k, m \in DOMAIN t : k <= m /\ t[k] = s[i] /\ t[m] = s[j]
\* nothing collected without an error is missing from any part
Everywhere == \A i \in DOMAIN parts, t \in Traces : Subseq(all[t], parts[i].has[t])
\* what is listed is what is looked up; what some part has is listed
Agree == \A t \in Traces :
    LET r == Lookup(parts, t)
        s == List(parts, Traces)
    IN /\ (r.err = "" /\ s.err = "") => [t |-> t, v |-> r.v] \in s.v
       /\ (r.err = "notfound" /\ s.err = "") => \A x \in s.v : x.t # t
       /\ s.err = "" => Cardinality({x \in s.v : x.t = t}) = (IF \E i \in DOMAIN parts : parts[i].has[t] # <<>> THEN 1 ELSE 0)
\* options distribute
Split == \A w \in SUBSET Traces : List(parts, Traces).err = "" => List(parts, w).v \cup List(parts, Traces \ w).v = List(parts, Traces).v
\* combining combinations is combining
Sub(k) == SubSeq(parts, 1, k)
Tail_(k) == SubSeq(parts, k + 1, Len(parts))
Nest == \A k \in 0..Len(parts), t \in Traces :
    /\ Lookup(parts, t) = (IF Lookup(Sub(k), t).err = "notfound" THEN Lookup(Tail_(k), t) ELSE Lookup(Sub(k), t))
    /\ CollectErr(parts) = (IF CollectErr(Sub(k)) # "" THEN CollectErr(Sub(k)) ELSE CollectErr(Tail_(k)))
    /\ Collected(parts, t, n) = Collected(Sub(k), t, n) \o (IF CollectErr(Sub(k)) # "" THEN Tail_(k) ELSE Collected(Tail_(k), t, n))
=============================================================================
