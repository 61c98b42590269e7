------------------------------- MODULE Pipeline -------------------------------
(***************************************************************************)
(* A whole deployment: recorders hand pieces of spans to the collector of   *)
(* their client, chunked collectors pass them on when they are flushed,     *)
(* connections carry them to the server, whose store shows traces.  A piece *)
(* is [t, s, p, a]: annotations a of span s, in trace t and below p.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* where a span is shown, given the spans of its trace: under its parent; a
\* span whose parent is missing, under the root
Up(S, x) == IF x.p = 0 THEN 0
            ELSE IF \E y \in S : y.s = x.p THEN x.p
            ELSE IF \E y \in S : y.p = 0 THEN (CHOOSE y \in S : y.p = 0).s
            ELSE -1
Count(q, v) == Cardinality({k \in DOMAIN q : q[k] = v})
RECURSIVE Total(_, _, _)
Total(P, K, v) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN Count(P[k].a, v) + Total(P, K \ {k}, v)
\* a list of annotations holds exactly those of the pieces K
Holds(a, P, K) == LET V == {a[i] : i \in DOMAIN a} \cup UNION {{P[k].a[i] : i \in DOMAIN P[k].a} : k \in K}
                  IN  \A v \in V : Count(a, v) = Total(P, K, v)
\* or no others
Within(a, P, K) == \A v \in {a[i] : i \in DOMAIN a} : Count(a, v) <= Total(P, K, v)
=============================================================================
