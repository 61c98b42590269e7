------------------------------- MODULE Remote -------------------------------
(***************************************************************************)
(* The remote collector and its connections.  A call is one atomic step    *)
(* (the collector serves one at a time): it is sent on the current         *)
(* connection; if there is none, or if that fails, on a new one.           *)
(* sent[k]: what was written to connection k in order; the network may     *)
(* break a connection at any moment, after which a suffix of what was      *)
(* written never arrives (its first message possibly in part).             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Calls, MaxConns
VARIABLES cur,      \* current connection, 0 if none
          sent,     \* per connection: sequence of [i, whole]
          broken,   \* connections that have failed
          down,     \* nothing is listening
          res,      \* result of each call made: "ok", "err"
          tries     \* connections on which each call was sent
vars == <<cur, sent, broken, down, res, tries>>

Init == cur = 0 /\ sent = <<>> /\ broken = {} /\ down = FALSE
        /\ res = [i \in {} |-> ""] /\ tries = [i \in {} |-> <<>>]

Do(i) ==
  /\ i \notin DOMAIN res
  /\ LET second(s, why) ==      \* connect and send again
           IF down THEN [s |-> s, cur |-> 0, err |-> TRUE, t |-> why]
           ELSE [s |-> Append(s, <<i>>), cur |-> Len(s) + 1, err |-> FALSE, t |-> Append(why, Len(s) + 1)]
         r == IF cur # 0 /\ cur \notin broken
              THEN [s |-> [sent EXCEPT ![cur] = Append(@, i)], cur |-> cur, err |-> FALSE, t |-> <<cur>>]
              ELSE second(sent, IF cur # 0 THEN <<cur>> ELSE <<>>)
     IN  /\ Len(r.s) <= MaxConns
         /\ sent' = r.s /\ cur' = r.cur
         /\ res' = [j \in DOMAIN res \cup {i} |-> IF j = i THEN IF r.err THEN "err" ELSE "ok" ELSE res[j]]
         /\ tries' = [j \in DOMAIN tries \cup {i} |-> IF j = i THEN r.t ELSE tries[j]]
  /\ UNCHANGED <<broken, down>>

\* the connection breaks while message i is being written: it fails at once
\* and is sent again (or the call fails)
DoBreaking(i) ==
  /\ i \notin DOMAIN res /\ cur # 0 /\ cur \notin broken
  /\ broken' = broken \cup {cur}
  /\ LET r == IF down THEN [s |-> sent, cur |-> 0, err |-> TRUE, t |-> <<cur>>]
              ELSE [s |-> Append(sent, <<i>>), cur |-> Len(sent) + 1, err |-> FALSE, t |-> <<cur, Len(sent) + 1>>]
     IN  /\ Len(r.s) <= MaxConns
         /\ sent' = [r.s EXCEPT ![cur] = Append(@, i)] /\ cur' = r.cur
         /\ res' = [j \in DOMAIN res \cup {i} |-> IF j = i THEN IF r.err THEN "err" ELSE "ok" ELSE res[j]]
         /\ tries' = [j \in DOMAIN tries \cup {i} |-> IF j = i THEN r.t ELSE tries[j]]
  /\ UNCHANGED down

Break == /\ \E k \in 1..Len(sent) : k \notin broken /\ broken' = broken \cup {k}
         /\ UNCHANGED <<cur, sent, down, res, tries>>
Toggle == down' = ~down /\ UNCHANGED <<cur, sent, broken, res, tries>>
CloseIt == cur' = 0 /\ UNCHANGED <<sent, broken, down, res, tries>>
Next == (\E i \in Calls : Do(i) \/ DoBreaking(i)) \/ Break \/ Toggle \/ CloseIt
Spec == Init /\ [][Next]_vars

\* ---- what a server may receive: all of it from a sound connection, a
\* prefix from a broken one; and what that implies for callers
OkOnSound == \A i \in DOMAIN res : res[i] = "ok" =>
                 LET k == tries[i][Len(tries[i])] IN k \in broken \/ \E p \in 1..Len(sent[k]) : sent[k][p] = i
OncePerTry == \A k \in 1..Len(sent) : \A p, r \in 1..Len(sent[k]) : sent[k][p] = sent[k][r] => p = r
TwoTries == \A i \in DOMAIN tries : Len(tries[i]) <= 2
                 /\ (Len(tries[i]) = 2 => tries[i][1] \in broken)
ErrOnlyDown == \A i \in DOMAIN res : res[i] = "err" => tries[i] = <<>> \/ tries[i][Len(tries[i])] \in broken
=============================================================================
