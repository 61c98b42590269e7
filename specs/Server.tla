------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The collection server.  Each connection is served by itself: its        *)
(* messages are passed on to the collector in order, up to the first that  *)
(* is malformed, the first that the collector refuses, or the end.         *)
(* A connection is [b, head, w, pos, st]:                                  *)
(*  b     all bytes the client is going to send                            *)
(*  head  messages [len, m] of that length standing before b, given by     *)
(*        their meaning because they are too long to spell out             *)
(*  w     how many bytes of b were sent (-i: the last i heads were not)    *)
(*  pos   position of the first byte that was not passed on (0: the last   *)
(*        head, -1: the one before it ...)                                 *)
(*  st    "new", "open", "shut" (end of stream sent), "reset"              *)
(*  refused, closed   the collector refused a message / the server closed  *)
(***************************************************************************)
EXTENDS Wire, Integers

Conn(b, head) == [b |-> b, head |-> head, w |-> 0 - Len(head), pos |-> 1 - Len(head),
                  st |-> "new", refused |-> FALSE, closed |-> FALSE]

\* what the server can make of what it has received and not yet passed on
Front(x) == IF x.pos <= 0
            THEN LET h == x.head[Len(x.head) + x.pos]
                 IN  IF h.len > MaxMessage THEN [r |-> "bad"]
                     ELSE IF x.w < x.pos THEN [r |-> "more"]
                     ELSE [r |-> "msg", m |-> h.m, next |-> x.pos + 1]
            ELSE IF x.w < x.pos THEN [r |-> "more"]
            ELSE First(SubSeq(x.b, 1, x.w), x.pos)

Served(x) == x.st # "new" /\ ~x.refused /\ ~x.closed

\* the message m is passed on; the collector refuses it if bad
CanPass(x, m) == Served(x) /\ Front(x).r = "msg" /\ Front(x).m = m
Pass(x, bad) == [x EXCEPT !.pos = Front(x).next, !.refused = bad]

\* the server may close the connection
MayClose(x) == \/ x.refused
               \/ x.st = "reset"
               \/ Served(x) /\ Front(x).r = "bad"
               \/ x.st = "shut" /\ x.w = Len(x.b) /\ Front(x).r = "more"
Close(x) == [x EXCEPT !.closed = TRUE]

\* nothing is left to be done by the server on this connection
Settled(x) == \/ x.closed \/ x.st = "new" \/ x.st = "reset"
              \/ ~x.refused /\ Front(x).r = "more" /\ x.st = "open"
=============================================================================
