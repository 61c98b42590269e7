--------------------------- MODULE SpanTextTrace ---------------------------
(***************************************************************************)
(* Recorded uses of span IDs.                                              *)
(*  fmt id text        formatting                                          *)
(*  parse text ok id   parsing                                             *)
(*  pid text ok n      parsing a single number                             *)
(*  json id ok back    encoding as JSON and decoding                       *)
(*  jnum dec ok n      decoding a JSON number                              *)
(*  jstr text ok n     decoding a JSON string                              *)
(*  get span parent ok id   looking up the span ID of a request            *)
(*  mw span parent ran id col   sending a request through the middleware:  *)
(*                     how often the handler ran, the span ID it saw, and  *)
(*                     the span IDs collected                              *)
(*  child of id / root id   new span IDs                                   *)
(***************************************************************************)
EXTENDS SpanText, TraceLib
VARIABLES tid, l, seen
vars == <<tid, l, seen>>
Tr == Recorded
Ev == Tr[tid].ev[l]
Nums(id) == {id[1], id[2], id[3]}
Init == tid \in 1..Len(Tr) /\ l = 1 /\ seen = {Zero}
Res(r) == IF Ev.ok THEN r = <<Ev.id>> ELSE r = Bad
Next ==
    /\ l <= Len(Tr[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
    /\ CASE Ev.op = "fmt" -> Parse(Ev.text) = <<Ev.id>> /\ UNCHANGED seen
         [] Ev.op = "parse" -> Res(Parse(Ev.text)) /\ UNCHANGED seen
         [] Ev.op \in {"pid", "jstr"} -> Res(ParseNum(Ev.text)) /\ UNCHANGED seen
         [] Ev.op = "jnum" -> Res(DecNum(Ev.dec)) /\ UNCHANGED seen
         [] Ev.op = "json" -> Ev.ok /\ Ev.back = Ev.id /\ UNCHANGED seen
         [] Ev.op = "get" ->
              LET d == Decide(Ev.span, Ev.parent) IN
              IF d[1] = "bad" THEN ~Ev.ok /\ UNCHANGED seen
              ELSE Ev.ok /\ Answers(Ev.id, d, seen) /\ seen' = seen \cup Nums(Ev.id)
         [] Ev.op = "mw" ->
              LET d == Decide(Ev.span, Ev.parent)
                  want == IF d[1] = "bad" THEN <<"root">> ELSE d
              IN /\ Ev.ran = 1 /\ Ev.col = <<Ev.id>> /\ Answers(Ev.id, want, seen) /\ seen' = seen \cup Nums(Ev.id)
         [] Ev.op = "child" -> FreshChild(Ev.id, Ev.of, seen) /\ seen' = seen \cup Nums(Ev.id)
         [] Ev.op = "root" -> FreshRoot(Ev.id, seen) /\ seen' = seen \cup Nums(Ev.id)
         [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(Tr[tid].ev) + 1) => Done(tid)
          /\ At(tid, l)
=============================================================================
