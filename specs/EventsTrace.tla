----------------------------- MODULE EventsTrace -----------------------------
(* rt: an event was marshalled into m and, among other annotations, all of *)
(* them a, unmarshalled as back.  un: annotations a that something else    *)
(* wrote were unmarshalled.  all: all known events of a span were read.    *)
(* reg: an event was registered.  cm, cu: an event that marshals itself.   *)
EXTENDS Events, TraceLib
VARIABLES tid, l, reg
vars == <<tid, l, reg>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Init == /\ tid \in 1..Len(Tr) /\ l = 1
        /\ reg = {"name", "log", "msg", "timespan", "Timespan", "HTTPServer", "HTTPClient", "SQL"}
Set(s) == {s[i] : i \in DOMAIN s}
Step == l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
Schema(s) == "_schema:" \o s
IsSchema(k) == StartsWith(k, Schema(""))
KV(a) == [k \in {a[i].k : i \in DOMAIN a} |-> a[CHOOSE i \in DOMAIN a : a[i].k = k /\ \A j \in DOMAIN a : a[j].k = k => j <= i]]
Schemas(a) == SelectSeq([i \in DOMAIN a |-> a[i].k], IsSchema)
Bare(k) == SubSeq(k, Len(Schema("")) + 1, Len(k))

Marshalled(t, v, schema, m) ==
    LET fl == Flatten(t, v, "") IN
    /\ Len(m) = Cardinality(fl) + 1
    /\ \E i \in DOMAIN m : m[i].k = Schema(schema)
    /\ \A f \in fl : \E i \in DOMAIN m : m[i].k = f.k /\ Canon(f.kind, m[i]) = f.x

Round == /\ Ev.op = "rt" /\ Ev.merr = "" /\ Ev.uerr = "" /\ Ev.intact
         /\ Marshalled(Ev.t, Ev.v, Ev.schema, Ev.m)
         /\ Same(Ev.t, Ev.back, Ev.v)
         /\ UNCHANGED reg
Foreign == /\ Ev.op = "un"
           /\ IF Schema(Ev.schema) \in Set(Schemas(Ev.a))
              THEN Ev.uerr = "" /\ Same(Ev.t, Ev.back, Unflatten(Ev.t, "", KV(Ev.a)))
              ELSE Ev.uerr = "schema:" \o Ev.schema /\ Same(Ev.t, Ev.back, Unflatten(Ev.t, "", <<>>))
           /\ UNCHANGED reg
Known == Set(Tr[tid].cfg.known)
All == /\ Ev.op = "all" /\ Ev.uerr = ""
       /\ LET isKnown(s) == Bare(s) \in Known
              exp == SelectSeq(Schemas(Ev.a), isKnown)
              of(s) == CHOOSE i \in DOMAIN Ev.evs : Ev.evs[i].schema = s
          IN /\ Len(Ev.back) = Len(exp)
             /\ \A i \in DOMAIN exp : /\ Ev.back[i].schema = Bare(exp[i]) /\ ~Ev.back[i].ptr
                                      /\ \E j \in DOMAIN Ev.evs : Ev.evs[j].schema = Bare(exp[i])
                                      /\ Same(Ev.evs[of(Bare(exp[i]))].t, Ev.back[i].v, Ev.evs[of(Bare(exp[i]))].v)
       /\ UNCHANGED reg
Register == /\ Ev.op = "reg"
            /\ Ev.refused = (Ev.schema \in reg \cup {""})
            /\ reg' = reg \cup {Ev.schema}
CustomMarshal == /\ Ev.op = "cm" /\ Ev.intact
                 /\ IF Ev.fail THEN Ev.err # ""
                    ELSE /\ Ev.err = "" /\ Len(Ev.m) = 3
                         /\ \A kv \in {<<"self.p", Ev.p>>, <<"self.q", Ev.q>>, <<Schema("evSelf"), "">>} :
                               \E i \in DOMAIN Ev.m : Ev.m[i].k = kv[1] /\ Ev.m[i].v = kv[2]
                 /\ UNCHANGED reg
CustomUnmarshal == /\ Ev.op = "cu"
                   /\ IF ~Ev.has THEN Ev.err = "schema:evSelf" /\ Ev.bp = "old"
                      ELSE IF Ev.bad THEN Ev.err = "bad" /\ Ev.bp = "old"
                      ELSE Ev.err = "" /\ Ev.bp = Ev.p /\ Ev.bq = Ev.q
                   /\ UNCHANGED reg
Next == Step /\ (Round \/ Foreign \/ All \/ Register \/ CustomMarshal \/ CustomUnmarshal)
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
