------------------------------ MODULE HttpTrace ------------------------------
(***************************************************************************)
(* Traced HTTP calls.  A call k is made by the handler of call `from' (0:  *)
(* by the outermost recorder; -1: by somebody who does not trace).  A span *)
(* ID is [t, s, p].  What is recorded of a call is a client span (traced   *)
(* callers) and a server span (if the request arrived).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* ---- what a handler's operations on its response amount to
\* <<"H", code>> WriteHeader, <<"W", n>> Write of n bytes, <<"F", 0>> Flush,
\* <<"L", n>> setting the Content-Length header
R0 == [status |-> 0, len |-> 0, limit |-> -1, want |-> -1]
Header(r, c) == IF r.status # 0 \/ c \in 100..199 \ {101} THEN r
                ELSE [r EXCEPT !.status = c, !.limit = r.want]
BodyAllowed(c) == c >= 200 /\ c \notin {204, 304}
Apply(r, op) ==
    CASE op[1] = "H" -> Header(r, op[2])
      [] op[1] = "F" -> Header(r, 200)
      [] op[1] = "L" -> [r EXCEPT !.want = op[2]]
      [] op[1] = "W" ->
           LET q == Header(r, 200) IN
           IF BodyAllowed(q.status) /\ (q.limit < 0 \/ q.len + op[2] <= q.limit)
           THEN [q EXCEPT !.len = @ + op[2]] ELSE q
RECURSIVE Run(_, _)
Run(r, ops) == IF ops = <<>> THEN Header(r, 200) ELSE Run(Apply(r, Head(ops)), Tail(ops))
Outcome(ops) == Run(R0, ops)
\* the response is what the handler announced
Complete(ops) == LET r == Outcome(ops) IN r.limit < 0 \/ r.len = r.limit

\* ---- span IDs
Child(of, s) == [t |-> of.t, s |-> s, p |-> of.s]
IsChildOf(id, of) == id.t = of.t /\ id.p = of.s

\* ---- the recorded spans of one request hang together
\* rec: set of [k, side, id]; out: the span ID of the outermost span
Outer(rec, out) == {r \in rec : r.id = out}
RECURSIVE Below(_, _)
Below(rec, S) == LET T == S \cup {r.id.s : r \in {q \in rec : q.id.p \in S}} IN
                 IF T = S THEN S ELSE Below(rec, T)
Connected(rec, out) ==
    /\ Cardinality({r.id.s : r \in rec}) = Cardinality(rec)
    /\ \A r \in rec : r.id.t = out.t
    /\ Cardinality(Outer(rec, out)) = 1
    /\ {r.id.s : r \in rec} \subseteq Below(rec, {out.s})
=============================================================================
