------------------------------ MODULE RedactMC ------------------------------
(* Recording field by field in any order, as over a map, keeps to Records. *)
EXTENDS Redact, TLC
CONSTANTS MaxFields
A == <<65>>       \* "A"
a == <<97>>       \* "a"
B == <<66>>       \* "B"
TA == <<84, 114, 97, 105, 108, 101, 114, 58, 65>> \* "Trailer:A"
AllNames == {A, a, B, TA}
Lists == SUBSET {a, B}
VARIABLES fields, list, todo, out
vars == <<fields, list, todo, out>>
Vals(i) == {<<>>, <<ToString(i)>>, <<ToString(i), ToString(i + 10)>>}
Init == /\ \E n \in 0..MaxFields : \E f \in [1..n -> AllNames] : \E w \in [1..n -> 0..2] :
              fields = [i \in 1..n |-> [n |-> f[i], v |-> CASE w[i] = 0 -> <<>> [] w[i] = 1 -> <<ToString(i)>> [] OTHER -> <<ToString(i), ToString(i + 10)>>]]
        /\ list \in Lists /\ todo = DOMAIN fields /\ out = <<>>
At(f) == {i \in DOMAIN out : Fold(out[i].n) = f}
Add(i) == /\ i \in todo /\ todo' = todo \ {i} /\ UNCHANGED <<fields, list>>
          /\ LET f == Fold(fields[i].n)
                 v == IF Redacted(fields[i].n, list) THEN <<Replacement>> ELSE fields[i].v
             IN IF At(f) = {} THEN out' = Append(out, [n |-> f, v |-> v])
                ELSE out' = [out EXCEPT ![CHOOSE j \in At(f) : TRUE].v = IF Redacted(fields[i].n, list) THEN v ELSE @ \o v]
Next == \E i \in DOMAIN fields : Add(i)
Spec == Init /\ [][Next]_vars
Right == todo = {} => Records(out, fields, list, {})
Silent == \A i \in DOMAIN fields : Redacted(fields[i].n, list) =>
              \A j \in DOMAIN fields[i].v : \A k \in DOMAIN out : Count(out[k].v, fields[i].v[j]) = 0
=============================================================================
