-------------------------------- MODULE Multi --------------------------------
(***************************************************************************)
(* A store and a querier combined of parts.  A part holds for every trace  *)
(* the sequence of what was collected (<<>> for a trace it does not have), *)
(* and can be made to fail to collect, look up or list: [has, c, t, l],    *)
(* where c, t and l are errors ("" for none).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
FirstOr0(S) == IF S = {} THEN 0 ELSE Min(S)

Put(p, t, a) == [p EXCEPT !.has[t] = Append(@, a)]
\* collecting: every part in order until the first that fails
Stop(parts) == FirstOr0({i \in DOMAIN parts : parts[i].c # ""})
Collected(parts, t, a) ==
    [i \in DOMAIN parts |-> IF Stop(parts) = 0 \/ i < Stop(parts) THEN Put(parts[i], t, a) ELSE parts[i]]
CollectErr(parts) == IF Stop(parts) = 0 THEN "" ELSE parts[Stop(parts)].c

\* looking up: the first part that has the trace, or fails
Hit(parts, t) == FirstOr0({i \in DOMAIN parts : parts[i].t # "" \/ parts[i].has[t] # <<>>})
Lookup(parts, t) ==
    IF Hit(parts, t) = 0 THEN [err |-> "notfound", v |-> <<>>]
    ELSE IF parts[Hit(parts, t)].t # "" THEN [err |-> parts[Hit(parts, t)].t, v |-> <<>>]
    ELSE [err |-> "", v |-> parts[Hit(parts, t)].has[t]]

\* listing: the traces wanted, each from the first part that has it
First(parts, t) == FirstOr0({i \in DOMAIN parts : parts[i].has[t] # <<>>})
ListErr(parts) == LET bad == {i \in DOMAIN parts : parts[i].l # ""} IN IF bad = {} THEN "" ELSE parts[Min(bad)].l
List(parts, want) ==
    IF ListErr(parts) # "" THEN [err |-> ListErr(parts), v |-> {}]
    ELSE [err |-> "", v |-> {[t |-> t, v |-> parts[First(parts, t)].has[t]] : t \in {u \in want : First(parts, u) # 0}}]
=============================================================================
