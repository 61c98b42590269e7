------------------------------- MODULE WireMC -------------------------------
(* The protocol is what it should be: what is encoded is decoded again,    *)
(* wherever in a stream it stands; a strict prefix never yields a message  *)
(* and is never taken for a malformed one; and damage to one byte does not *)
(* change the messages before it.                                          *)
EXTENDS Wire, TLC
Ids == {Zero8, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<12, 36, 44, 43, 9, 0, 128, 0>>}
Strs == {<<>>, <<44>>, <<12, 195, 164>>}
Anns == {[k |-> k, v |-> v] : k \in Strs, v \in {<<>>, <<44, 43>>}}
AnnSeqs == {<<>>} \cup {<<a>> : a \in Anns} \cup {<<a, b>> : a \in Anns, b \in {[k |-> <<12>>, v |-> <<44>>]}}
VARIABLES m, n, cut, dmg
vars == <<m, n, cut, dmg>>
Msg(t, s, p, as) == [bad |-> FALSE, t |-> t, s |-> s, p |-> p, anns |-> as]
Small == Msg(Zero8, <<9, 9, 9, 9, 9, 9, 9, 9>>, Zero8, <<>>)
Init == /\ m \in {Msg(t, <<1, 2, 3, 4, 5, 6, 7, 8>>, p, as) : t \in {Zero8, <<12, 36, 44, 43, 9, 0, 128, 0>>}, p \in {Zero8, <<255, 255, 255, 255, 255, 255, 255, 255>>}, as \in AnnSeqs}
                 \cup {Msg(<<1, 2, 3, 4, 5, 6, 7, 8>>, s, Zero8, as) : s \in Ids, as \in {<<>>}}
        /\ n \in 0..1 /\ cut = 0 /\ dmg = 0
Stream == (IF n = 1 THEN Encode(Small) ELSE <<>>) \o Encode(m)
At == IF n = 1 THEN 1 + Len(Encode(Small)) ELSE 1
Next == \/ /\ cut = 0 /\ dmg = 0 /\ cut' \in 1..Len(Encode(m)) /\ UNCHANGED <<m, n, dmg>>
        \/ /\ cut = 0 /\ dmg = 0 /\ dmg' \in 1..Len(Encode(m)) /\ UNCHANGED <<m, n, cut>>
Spec == Init /\ [][Next]_vars
\* cut and dmg count from the last byte
Cut == SubSeq(Stream, 1, Len(Stream) - cut)
Damaged == [i \in 1..Len(Stream) |-> IF dmg > 0 /\ i = Len(Stream) + 1 - dmg THEN (Stream[i] + 77) % 256 ELSE Stream[i]]
RoundTrip == cut = 0 => LET f == First(Stream, At) IN f.r = "msg" /\ f.m = m /\ f.next = Len(Stream) + 1
Prefixes == cut > 0 => First(Cut, At) = [r |-> "more"]
Before == n = 1 => LET f == First(Damaged, 1) IN f.r = "msg" /\ f.m = Small /\ f.next = At
\* damage yields at most one message in the place of the damaged one, of the same extent,
\* unless the length itself was damaged
Within == (dmg > 0 /\ dmg < Len(Encode(m)) /\ Encode(m)[1] < 128) =>
            LET f == First(Damaged, At) IN f.r \in {"bad", "msg"} /\ (f.r = "msg" => f.next = Len(Stream) + 1)
=============================================================================
