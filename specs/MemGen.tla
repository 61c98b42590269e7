------------------------------- MODULE MemGen -------------------------------
(***************************************************************************)
(* Stimuli for the in-memory store.                                        *)
(* Vectors: v[i] is the parent of the i-th arriving span: an index 1..n,   *)
(* 0 for a root, 99 for a parent that never arrives.  Up to renaming these *)
(* are all parent relations with all arrival orders.                       *)
(* Mixed: behaviours over all operations, for -simulate.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, Mode, Len_

VARIABLES h
vars == <<h>>

Par(i) == h[i]
RECURSIVE PeelV(_)
PeelV(S) == LET L == {i \in S : h[i] \notin S} IN IF L = {} THEN S ELSE PeelV(S \ L)
WF == /\ PeelV(DOMAIN h) = {}
      /\ Cardinality({i \in DOMAIN h : h[i] = 0}) <= 1

Annot == 0..2
Ts == 1..3
Ss == 1..4

\* operation classes with weights; a step picks a class, then an operation of it
Classes ==
  CASE Mode = "c02" ->
         << [op : {"C"}, t : 1..2, s : 1..2, p : {0}, a : Annot],
            [op : {"NS"}, h : 1..2, n : 0..2, c : 0..2],
            [op : {"CS"}, t : 1..2, s : 1..2, p : {0}, h : 1..2],
            [op : {"CS"}, t : {1}, s : 1..2, p : {0}, h : {1}],
            [op : {"MS"}, h : 1..2, i : 1..2],
            [op : {"AS"}, h : 1..2] >>
    [] Mode = "c05" ->
         << [op : {"C"}, t : Ts, s : 1..3, p : 0..3, a : 0..1],
            [op : {"C"}, t : Ts, s : 1..3, p : 0..3, a : 0..1],
            [op : {"D"}, ids : {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<3, 3>>, <<>>, <<2, 9>>, <<1, 2, 3>>}],
            [op : {"L"}, f : {<<>>, <<1>>, <<2, 3>>, <<3, 9>>, <<1, 1, 2>>, <<9>>}],
            [op : {"T"}, t : Ts] >>
    [] Mode = "c06" ->
         << [op : {"C"}, t : 1..2, s : 1..4, p : 0..4, a : 0..1],
            [op : {"C"}, t : 1..2, s : 1..4, p : 0..4, a : 0..1],
            [op : {"C"}, t : 1..2, s : 1..4, p : 0..4, a : 0..1],
            [op : {"D"}, ids : {<<1>>, <<2>>}],
            [op : {"W"}, k : 1..2],
            [op : {"R"}, k : 1..2, mode : {"new", "same"}, cut : {1000}],
            [op : {"R"}, k : 1..2, mode : {"new", "same"}, cut : {0, 500, 900, 999}] >>
    [] Mode = "c03" ->
         << [op : {"C"}, t : 1..2, s : 1..4, p : 0..4, a : Annot],
            [op : {"C"}, t : 1..2, s : 1..4, p : 0..4, a : Annot],
            [op : {"C"}, t : {1}, s : 1..4, p : 0..4, a : Annot],
            [op : {"D"}, ids : {<<1>>}],
            [op : {"W"}, k : {1}],
            [op : {"R"}, k : {1}, mode : {"new", "same"}, cut : {1000}],
            [op : {"L"}, f : {<<>>}],
            [op : {"T"}, t : 1..2],
            [op : {"MR"}, x : 0..3] >>
    [] OTHER -> <<>>

Init == h = <<>>

VecNext == /\ Len(h) < N
           /\ \E p \in (0..N) \cup {99} : h' = Append(h, p)
MixNext == /\ Len(h) < Len_
           /\ h' = Append(h, RandomElement(Classes[RandomElement(1..Len(Classes))]))

Next == IF Mode \in {"wf", "mal"} THEN VecNext ELSE MixNext
Spec == Init /\ [][Next]_vars

Emit ==
  CASE Mode = "wf" -> (Len(h) = N /\ WF) => PrintT("@@S " \o ToJson(h))
    [] Mode = "mal" -> (Len(h) = N /\ ~WF) => PrintT("@@S " \o ToJson(h))
    [] OTHER -> (Len(h) = Len_) => PrintT("@@S " \o ToJson(h))
=============================================================================
