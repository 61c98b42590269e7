----------------------------- MODULE OpenTracing -----------------------------
(***************************************************************************)
(* OpenTracing spans and what is collected of them.                        *)
(*                                                                         *)
(* A span is [tr, sp, pa, sampled, bag, tags, name, start, logs]; bag and  *)
(* tags are functions, a log is [f, t]: its fields [k, v] and its time.    *)
(* A context is what of a span its descendants inherit: [tr, sp, sampled,  *)
(* bag].  What is collected of a finished span is a set of items.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Range(s) == {s[i] : i \in DOMAIN s}
FieldMap(fs) == [k \in {fs[i].k : i \in DOMAIN fs} |->
                    fs[CHOOSE i \in DOMAIN fs : fs[i].k = k /\ \A j \in DOMAIN fs : fs[j].k = k => j <= i].v]
Context(s) == [tr |-> s.tr, sp |-> s.sp, sampled |-> s.sampled, bag |-> s.bag]
\* a span started on its own, and under a context
Root(tr, sp, dec, name, tags, start) ==
    [tr |-> tr, sp |-> sp, pa |-> 0, sampled |-> dec, bag |-> <<>>, tags |-> tags, name |-> name, start |-> start, logs |-> <<>>]
Child(c, sp, name, tags, start) ==
    [tr |-> c.tr, sp |-> sp, pa |-> c.sp, sampled |-> c.sampled, bag |-> c.bag, tags |-> tags, name |-> name, start |-> start, logs |-> <<>>]

\* a log is collected as its only field's text if that is named event, and
\* otherwise as an object of all its fields
OneEvent(f) == DOMAIN FieldMap(f) = {"event"}
\* the annotations collected of a span that ended, other than its logs
Ann(k, v) == k \o "=" \o v
Plain(s, end) ==
    <<Ann("Name", s.name), Ann("_schema:name", ""), Ann("Span.Start", s.start), Ann("Span.End", end), Ann("_schema:Timespan", "")>>
\* annotations with keys of their own: how often k=v is among tags and baggage
Times(s, a) == Cardinality({k \in DOMAIN s.tags : Ann(k, s.tags[k]) = a}) + Cardinality({k \in DOMAIN s.bag : Ann(k, s.bag[k]) = a})
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
All(s, end) == Range(Plain(s, end)) \cup {Ann(k, s.tags[k]) : k \in DOMAIN s.tags} \cup {Ann(k, s.bag[k]) : k \in DOMAIN s.bag}
\* a, l: all annotations and logs [msg, obj, isobj, t] that were collected
AnnsOk(s, end, a) ==
    /\ Range(a) = All(s, end)
    /\ \A x \in All(s, end) : Count(a, x) = Count(Plain(s, end), x) + Times(s, x)
LogIs(got, log) ==
    /\ got.t = log.t
    /\ IF OneEvent(log.f) THEN got.msg = FieldMap(log.f)["event"]
       ELSE got.isobj /\ {<<got.obj[i].k, got.obj[i].v>> : i \in DOMAIN got.obj} = {<<k, FieldMap(log.f)[k]>> : k \in DOMAIN FieldMap(log.f)}
LogsOk(s, ls) ==
    /\ Len(ls) = Len(s.logs)
    /\ \A i \in DOMAIN s.logs : Cardinality({j \in DOMAIN ls : LogIs(ls[j], s.logs[i])}) >=
                                Cardinality({j \in DOMAIN s.logs : s.logs[j].t = s.logs[i].t /\ OneEvent(s.logs[j].f) = OneEvent(s.logs[i].f)
                                                                    /\ FieldMap(s.logs[j].f) = FieldMap(s.logs[i].f)})
\* failed: the errors of attempts that failed; notes: the errors noted on the
\* span; lost: how many notes failed as well; lines: how many were printed
FailuresOk(failed, notes, lost, lines, verbose, silent) ==
    /\ Len(notes) = Len(failed) /\ \A i \in DOMAIN failed : Count(notes, failed[i]) = Count(failed, failed[i])
    /\ lines = IF verbose THEN lost ELSE IF silent \/ lost = 0 THEN 0 ELSE 1
=============================================================================
