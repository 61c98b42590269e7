--------------------------- MODULE HttpTraceTrace ---------------------------
(***************************************************************************)
(* Recorded runs of traced HTTP calls over real connections.               *)
(*  open id               the outermost recorder                           *)
(*  call k from method uri path rlen traced named given   a call begins (given: the kind *)
(*                        of span header sent by an untraced caller, and   *)
(*                        the span ID in it)                               *)
(*  arrive k hdr method uri   the request arrives (hdr: its span header)   *)
(*  see k id              the handler's span ID                            *)
(*  served k ops          what the handler does to its response            *)
(*  raw k status len      what the underlying transport returned (-1, 0    *)
(*                        for a failure)                                   *)
(*  got k ok status len intact    the caller has the response and its body *)
(*  col side k id method uri rlen status len   a span is collected         *)
(*      route user times  (times: of the caller's clock, in order)         *)
(*  end                   all is over                                      *)
(***************************************************************************)
EXTENDS HttpTrace, TraceLib
VARIABLES tid, l, out, calls, rec
vars == <<tid, l, out, calls, rec>>
Tr == Recorded
Ev == Tr[tid].ev[l]
None == [t |-> "none", s |-> "none", p |-> "none"]
Zero == "0"
Host == "bed.example"
Init == tid \in 1..Len(Tr) /\ l = 1 /\ out = None /\ calls = <<>> /\ rec = {}
Numbers == {r.id.s : r \in rec} \cup {calls[k].sid.s : k \in DOMAIN calls} \cup {out.s}
Ctx(f) == IF f = 0 THEN out ELSE calls[f].sid
Set(k, f) == calls' = [calls EXCEPT ![k] = f]
C == calls[Ev.k]
RecS(id) == [k |-> Ev.k, side |-> Ev.side, id |-> id]
Sides(k, s) == {r \in rec : r.k = k /\ r.side = s}
\* the recorded times enclose the exchange: begun, sent, on the way, back, received, collected
InOrder(t) == Len(t) = 6 /\ t[1] >= 0 /\ \A i \in 1..5 : t[i] <= t[i + 1]
Next ==
    /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
    /\ CASE Ev.op = "open" -> out' = Ev.id /\ UNCHANGED <<calls, rec>>
         [] Ev.op = "call" ->
              /\ Ev.k = Len(calls) + 1
              /\ calls' = Append(calls, [from |-> Ev.from, method |-> Ev.method, uri |-> Ev.uri, route |-> Ev.route, user |-> Ev.user, path |-> Ev.path, named |-> Ev.named, rlen |-> Ev.rlen, traced |-> Ev.traced, given |-> Ev.given,
                                         arrived |-> FALSE, hdr |-> None, sid |-> None, ops |-> <<>>, served |-> FALSE,
                                         status |-> 0, len |-> 0, back |-> FALSE, got |-> FALSE])
              /\ UNCHANGED <<out, rec>>
         [] Ev.op = "arrive" ->
              /\ ~C.arrived /\ Ev.method = C.method /\ Ev.uri = C.uri
              /\ Set(Ev.k, [C EXCEPT !.arrived = TRUE, !.hdr = Ev.hdr]) /\ UNCHANGED <<out, rec>>
         [] Ev.op = "see" ->
              /\ C.arrived /\ C.sid = None
              /\ IF C.traced THEN Ev.id = C.hdr /\ Ev.id.s \notin Numbers
                 ELSE CASE C.given.kind = "none" -> Ev.id.p = Zero /\ Ev.id.s # Zero /\ Ev.id.t # Zero
                        [] C.given.kind = "span" -> Ev.id = C.given.id
                        [] OTHER -> IsChildOf(Ev.id, C.given.id) /\ Ev.id.s # C.given.id.s
              /\ out' = (IF C.traced THEN out ELSE Ev.id)
              /\ Set(Ev.k, [C EXCEPT !.sid = Ev.id]) /\ UNCHANGED rec
         [] Ev.op = "served" -> ~C.served /\ Set(Ev.k, [C EXCEPT !.ops = Ev.ops, !.served = TRUE]) /\ UNCHANGED <<out, rec>>
         [] Ev.op = "raw" -> /\ ~C.back /\ Set(Ev.k, [C EXCEPT !.status = Ev.status, !.len = Ev.len, !.back = TRUE])
                             /\ UNCHANGED <<out, rec>>
         [] Ev.op = "got" ->
              \* C.back: the call went through the underlying transport, once
              /\ C.back /\ ~C.got /\ Ev.intact
              /\ Ev.ok = (C.status # -1)
              /\ Ev.ok => (C.served /\ LET r == Outcome(C.ops) IN
                             /\ Ev.status = r.status /\ C.status = r.status
                             /\ (C.method # "HEAD" => Ev.len = r.len)
                             /\ (C.method = "HEAD" => Ev.len = 0)
                             /\ (C.method # "HEAD" => C.len \in {-1, r.len}))
              /\ Set(Ev.k, [C EXCEPT !.got = TRUE]) /\ UNCHANGED <<out, rec>>
         [] Ev.op = "col" ->
              /\ Sides(Ev.k, Ev.side) = {}
              /\ CASE Ev.side = "r" -> Ev.id = out
                   [] Ev.side = "c" ->
                        /\ C.traced /\ C.back /\ ~C.got
                        /\ IsChildOf(Ev.id, Ctx(C.from)) /\ Ev.id.s \notin Numbers
                        /\ Ev.method = C.method /\ Ev.uri = C.uri /\ Ev.rlen = C.rlen
                        /\ Ev.status = C.status /\ Ev.len = C.len
                        /\ Ev.name = (IF C.named THEN "Request " \o Host ELSE "")
                        /\ InOrder(Ev.times)
                   [] Ev.side = "s" ->
                        /\ C.served /\ Ev.id = C.sid
                        /\ Ev.method = C.method /\ Ev.uri = C.uri /\ Ev.rlen = C.rlen
                        /\ Ev.route = C.route /\ Ev.user = C.user
                        /\ Ev.name = "Serve " \o (IF C.route # "" THEN C.route ELSE C.path)
                        /\ InOrder(Ev.times)
                        /\ LET r == Outcome(C.ops) IN
                           Ev.status = r.status /\ (C.method # "HEAD" => Ev.len = r.len)
                   [] OTHER -> FALSE
              /\ rec' = rec \cup {RecS(Ev.id)} /\ UNCHANGED <<out, calls>>
         [] Ev.op = "end" ->
              /\ Connected(rec, out)
              /\ \A k \in DOMAIN calls :
                    /\ calls[k].traced => Sides(k, "c") # {} /\ calls[k].got
                    /\ calls[k].arrived => calls[k].served /\ Sides(k, "s") # {}
                    \* the server's span hangs under the caller's span, perhaps by way of the client's
                    /\ (calls[k].traced /\ calls[k].arrived) =>
                          calls[k].sid.p \in {Ctx(calls[k].from).s} \cup {r.id.s : r \in Sides(k, "c")}
              /\ UNCHANGED <<out, calls, rec>>
         [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
