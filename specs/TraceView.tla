------------------------------ MODULE TraceView ------------------------------
(***************************************************************************)
(* What a trace says of itself.  A trace is the sequence of its spans in   *)
(* depth-first order, each [id (trace, span, parent), d (depth), a (its    *)
(* annotations)].                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the spans of the subtree at i: i and what follows it deeper than it
Last(t, i) == CHOOSE j \in i..Len(t) : /\ (j = Len(t) \/ t[j + 1].d <= t[i].d)
                                       /\ \A k \in i + 1..j : t[k].d > t[i].d
SubTree(t, i) == [k \in 1..Last(t, i) - i + 1 |-> [t[i + k - 1] EXCEPT !.d = @ - t[i].d]]
\* the first span of that ID in the subtree at i, 0 if there is none
Find(t, i, s) == LET C == {j \in i..Last(t, i) : t[j].id[2] = s} IN
                 IF C = {} THEN 0 ELSE CHOOSE j \in C : \A k \in C : j <= k
\* the value of the first Name annotation
Name(a) == LET C == {j \in DOMAIN a : a[j].k = "Name"} IN
           IF C = {} THEN "" ELSE a[CHOOSE j \in C : \A k \in C : j <= k].v
\* the time span of events with these <<start, end>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Span(ts) == IF ts = <<>> THEN [ok |-> FALSE, s |-> 0, e |-> 0]
            ELSE [ok |-> TRUE, s |-> Min({ts[j][1] : j \in DOMAIN ts}), e |-> Max({ts[j][2] : j \in DOMAIN ts})]
\* annotation keys that some registered event calls important
ImportantKeys == {"Client.Request.Headers.If-Modified-Since", "Client.Request.Headers.If-None-Match", "Client.Response.StatusCode",
                  "Server.Response.StatusCode", "SQL", "Tag", "vw.Note", "vw note"}
\* as a map: one of the values of each key
IsMap(m, a) == /\ Len(m) = Cardinality({a[j].k : j \in DOMAIN a})
               /\ \A j \in DOMAIN a : \E i \in DOMAIN m : m[i].k = a[j].k
               /\ \A i \in DOMAIN m : \E j \in DOMAIN a : a[j] = m[i]

\* the rendered tree: for every span a line, t[i].at, then one for each annotation
IsText(lines, t) ==
    LET at(i) == t[i].at - t[1].at + 1 IN
    /\ Len(lines) = at(Len(t)) + Len(t[Len(t)].a)
    /\ \A i \in DOMAIN t :
          LET x == lines[at(i)] IN
          /\ i > 1 => at(i) = at(i - 1) + 1 + Len(t[i - 1].a)
          /\ x.kind = (IF i = 1 THEN "Trace" ELSE "Span")
          /\ x.id = (IF i = 1 THEN t[i].id[1] ELSE t[i].id[2])
          \* deeper is further right, equally deep is equally far
          /\ i > 1 => LET y == lines[at(i - 1)] IN
                      CASE t[i].d > t[i - 1].d -> x.col > y.col
                        [] t[i].d = t[i - 1].d -> x.col = y.col
                        [] OTHER -> LET j == CHOOSE j \in 1..i - 1 : t[j].d = t[i].d IN x.col = lines[at(j)].col
          /\ \A k \in DOMAIN t[i].a : lines[at(i) + k] = [kind |-> "ann", l |-> t[i].a[k].l]
=============================================================================
