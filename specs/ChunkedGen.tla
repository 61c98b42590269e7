----------------------------- MODULE ChunkedGen -----------------------------
(* Programs of one caller: what it does and how long it waits before.      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Mode, N
VARIABLES p
C(s, z, w, n) == [op |-> "C", s |-> s, z |-> z, w |-> w, n |-> n]
F(w) == [op |-> "F", s |-> 0, z |-> 0, w |-> w, n |-> 0]
S(w) == [op |-> "S", s |-> 0, z |-> 0, w |-> w, n |-> 0]
Alphabet ==
  CASE Mode = "c10" -> {C(1, 0, 0, 1), C(2, 1, 0, 2), C(1, 0, 6, 1), C(1, 0, 12, 0), F(0), F(3)}
    [] Mode = "c11" -> {C(1, 0, 0, 1), C(2, 6, 0, 1), C(1, 16, 3, 2), C(3, 60, 0, 1), F(0), F(7), C(1, 0, 12, 0)}
    [] Mode = "c12" -> {C(1, 0, 0, 1), C(2, 0, 4, 1), C(1, 0, 11, 0), F(0), F(5), S(0), S(7), S(13)}
Init == p = <<>>
Next == Len(p) < N /\ \E a \in Alphabet : p' = Append(p, a)
Spec == Init /\ [][Next]_p
Emit == Len(p) = N => PrintT("@@S " \o ToJson(p))
=============================================================================
