------------------------------ MODULE EventsMC ------------------------------
(* Every small event comes back, whatever else is on the span.             *)
EXTENDS Events
CONSTANTS MaxStray
K(k) == [k |-> k, e |-> <<>>, f |-> <<>>, n |-> 0]
Of(k, t) == [k |-> k, e |-> <<t>>, f |-> <<>>, n |-> 0]
S == K("string")
St(f) == [k |-> "struct", e |-> <<>>, f |-> f, n |-> 0]
Inner == St(<<[n |-> "X", t |-> S], [n |-> "B", t |-> Of("ptr", S)]>>)
Kinds == {S, Of("ptr", S), Of("slice", S), Of("map", S), [Of("array", S) EXCEPT !.n = 1], Inner, Of("ptr", St(<<[n |-> "X", t |-> Of("map", S)]>>)),
          Of("ptr", Of("slice", S))}
Names == {<<"A", "AB">>, <<"A", "A-">>, <<"B", "A">>, <<"A.B", "A.C">>}
N(n, v) == [n |-> n, v |-> v]
RECURSIVE Values(_)
Values(t) ==
    CASE t.k \notin Composite -> {Leaf(""), Leaf("x")}
      [] t.k = "ptr" -> {Nil} \cup {Node(<<N("*", v)>>) : v \in Values(t.e[1])}
      [] t.k = "array" -> {Node(<<N("0", v)>>) : v \in Values(t.e[1])}
      [] t.k = "slice" -> {Node(<<>>)} \cup {Node(<<N("0", v)>>) : v \in Values(t.e[1])} \cup {Node(<<N("0", v), N("1", Leaf("y"))>>) : v \in Values(t.e[1])}
      [] t.k = "map" -> {Node(<<>>)} \cup {Node(<<N(k, v)>>) : k \in {"", "B", "0.X"}, v \in Values(t.e[1])} \cup {Node(<<N("B", Leaf("x")), N("B.", Leaf("y"))>>)}
      [] OTHER -> {Node([i \in DOMAIN t.f |-> N(t.f[i].n, w[i])]) : w \in {u \in [DOMAIN t.f -> UNION {Values(t.f[i].t) : i \in DOMAIN t.f}] :
                        \A i \in DOMAIN t.f : u[i] \in Values(t.f[i].t)}}
Keys == {"", "A", "A.", "A.0", "A.1", "A.X", "A.X.B", "AB", "AB.", "AB.X", "A-", "A-.0", "AC", "B", "B.X", "B.0", "A.B", "A.B.0", "Z"}
VARIABLES t, v, stray
vars == <<t, v, stray>>
Init == /\ \E k1, k2 \in Kinds, n \in Names : t = St(<<[n |-> n[1], t |-> k1], [n |-> n[2], t |-> k2]>>)
        /\ v \in Values(t)
        /\ stray = {}
Next == /\ Cardinality(stray) < MaxStray /\ UNCHANGED <<t, v>>
        /\ \E k \in Keys : k \notin stray /\ ~Owns(t, "", k) /\ stray' = stray \cup {k}
Spec == Init /\ [][Next]_vars
Ann(x) == [v |-> x, f32 |-> x, f64 |-> x, t |-> x, d |-> x]
Leaves == Flatten(t, v, "")
KV == [k \in {f.k : f \in Leaves} \cup stray |-> IF \E f \in Leaves : f.k = k THEN Ann((CHOOSE f \in Leaves : f.k = k).x) ELSE Ann("stray")]
\* different parts are recorded under different keys, all of them their own
Unambiguous == \A f, g \in Leaves : f.k = g.k => f = g
Own == \A f \in Leaves : Owns(t, "", f.k)
RoundTrip == Same(t, Unflatten(t, "", KV), v)
Absent == \A f \in Flatten(t, Unflatten(t, "", [k \in stray |-> Ann("stray")]), "") : f.x = ""
=============================================================================
