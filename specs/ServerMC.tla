------------------------------ MODULE ServerMC ------------------------------
(* Two connections whose bytes arrive in packets of any size.              *)
EXTENDS Server, FiniteSets, TLC
CONSTANT Packets      \* sizes in which the bytes are sent
VARIABLES c, out
vars == <<c, out>>
Msg(k, n, as) == [bad |-> FALSE, t |-> [i \in 1..8 |-> k], s |-> [i \in 1..8 |-> n], p |-> Zero8, anns |-> as]
FailAnn == <<[k |-> <<70>>, v |-> <<>>]>>
Good(k, n) == Encode(Msg(k, n, <<>>))
Fail(k, n) == Encode(Msg(k, n, FailAnn))
Invalid == <<2, 8, 1>>                       \* an unknown field only
Streams(k) == {Good(k, 1) \o Good(k, 2), Good(k, 1) \o Invalid \o Good(k, 2), Fail(k, 1) \o Good(k, 2),
               Good(k, 1) \o SubSeq(Good(k, 2), 1, 20), Good(k, 1) \o <<255, 255, 255, 127>> \o Good(k, 2)}
Refuses(m) == \E i \in 1..Len(m.anns) : m.anns[i].k = <<70>>
Init == /\ c \in {<<Conn(a, <<>>), Conn(b, <<>>)>> : a \in Streams(1), b \in Streams(2)}
        /\ out = <<>>
Set(k, x) == c' = [c EXCEPT ![k] = x]
Next == \E k \in 1..2 :
          \/ c[k].st = "new" /\ Set(k, [c[k] EXCEPT !.st = "open"]) /\ UNCHANGED out
          \/ /\ c[k].st = "open" /\ c[k].w < Len(c[k].b)
             /\ \E n \in Packets : Set(k, [c[k] EXCEPT !.w = IF @ + n > Len(c[k].b) THEN Len(c[k].b) ELSE @ + n])
             /\ UNCHANGED out
          \/ c[k].st = "open" /\ c[k].w = Len(c[k].b) /\ Set(k, [c[k] EXCEPT !.st = "shut"]) /\ UNCHANGED out
          \/ /\ Served(c[k]) /\ Front(c[k]).r = "msg"
             /\ Set(k, Pass(c[k], Refuses(Front(c[k]).m)))
             /\ out' = Append(out, Front(c[k]).m)
          \/ ~c[k].closed /\ c[k].st # "new" /\ MayClose(c[k]) /\ Set(k, Close(c[k])) /\ UNCHANGED out
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the messages of a whole stream that are to be passed on
RECURSIVE Whole(_, _)
Whole(b, i) == LET f == First(b, i)
               IN  IF f.r # "msg" THEN <<>>
                   ELSE IF Refuses(f.m) THEN <<f.m>>
                   ELSE <<f.m>> \o Whole(b, f.next)
Mine(k) == SelectSeq(out, LAMBDA m : m.t[1] = k)
IsPrefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
Prefix == \A k \in 1..2 : IsPrefix(Mine(k), Whole(c[k].b, 1))
ClosedLate == \A k \in 1..2 : (c[k].closed /\ c[k].st = "shut") => Mine(k) = Whole(c[k].b, 1)
AllDone == <>(\A k \in 1..2 : c[k].closed /\ Mine(k) = Whole(c[k].b, 1))
=============================================================================
