------------------------------ MODULE RedactGen ------------------------------
(* Up to N header fields, each a header or a trailer, and a list.          *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Names, Lists, N
VARIABLES f, list
Init == f = <<>> /\ list \in Lists
Next == \E n \in Names, w \in {"header", "trailer"}, k \in 0..2 :
           /\ Len(f) < N /\ UNCHANGED list
           /\ \A i \in DOMAIN f : ~(f[i].n = n /\ f[i].w = w)
           /\ f' = Append(f, [n |-> n, w |-> w, k |-> k])
Spec == Init /\ [][Next]_<<f, list>>
Emit == Len(f) = N => PrintT("@@S " \o ToJson([f |-> f, list |-> list]))
=============================================================================
