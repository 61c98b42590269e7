------------------------------- MODULE TraceApp -------------------------------
(***************************************************************************)
(* Copying traces between instances of the web application.  An instance   *)
(* holds for every trace ID a set of spans, each [s, p, u, a]: its ID, its *)
(* parent's, the span it hangs under and its annotations ({}: no such      *)
(* trace).  A document is a trace taken out of an instance (or written by  *)
(* hand): [t, n], its ID and its spans.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Put(st, d) == IF st[d.t] = {} THEN [st EXCEPT ![d.t] = d.n] ELSE st

\* one upload of well-formed documents, in order
RECURSIVE Uploaded(_, _)
Uploaded(st, docs) == IF docs = <<>> THEN st ELSE Uploaded(Put(st, Head(docs)), Tail(docs))

\* an upload that is not well-formed changes nothing
Result(st, docs, bad) == IF bad THEN st ELSE Uploaded(st, docs)

\* several uploads at the same time: what was there stays; of several
\* documents of a new trace one is stored, alone and completely
Mixed(st, docs) ==
    {r \in [DOMAIN st -> {st[t] : t \in DOMAIN st} \cup {d.n : d \in docs}] :
        \A t \in DOMAIN st :
            LET of == {d.n : d \in {e \in docs : e.t = t}}
            IN  IF st[t] # {} \/ of = {} THEN r[t] = st[t] ELSE r[t] \in of}
Fits(st, docs, new) ==
    \A t \in DOMAIN st :
        LET of == {d.n : d \in {e \in docs : e.t = t}}
        IN  IF st[t] # {} \/ of = {} THEN new[t] = st[t] ELSE new[t] \in of

\* an upload to a store in which looking up the traces look fails, or storing
\* something failed (hit): what was there stays, and only what could not be
\* looked up or stored may be missing
Weathered(st, docs, look, hit, ok, new) ==
    /\ hit => ~ok
    /\ \A t \in DOMAIN st :
        LET of == SelectSeq(docs, LAMBDA d : d.t = t)
        IN  IF st[t] # {} \/ of = <<>> THEN new[t] = st[t]
            ELSE \/ hit
                 \/ ok /\ t \notin look /\ new[t] = of[1].n
                 \/ (~ok \/ t \in look) /\ new[t] \in {{}} \cup {of[i].n : i \in DOMAIN of}
=============================================================================
