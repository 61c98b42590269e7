-------------------------------- MODULE AuthMC --------------------------------
(***************************************************************************)
(* The check of one header, byte by byte in constant time, for several     *)
(* requests at once, each on its own connection.  Every byte string of up  *)
(* to Len_ bytes is sent.                                                  *)
(***************************************************************************)
EXTENDS Auth, TLC
CONSTANTS Len_, Conns, Reqs, EarlyExit
VARIABLES want, held, req, pc, i, diff, served, n, told
vars == <<want, held, req, pc, i, diff, served, n, told>>
Bytes == {1, 2}
Strings == UNION {[1..k -> Bytes] : k \in 0..Len_}
Kinds == {"page", "list", "upload"}
Init == /\ want \in Strings \ {<<>>} /\ held = {1} /\ n = 0 /\ told = {}
        /\ req = [c \in Conns |-> [k |-> "none", t |-> 0, hdr |-> <<>>]]
        /\ pc = [c \in Conns |-> "idle"] /\ i = [c \in Conns |-> 1] /\ diff = [c \in Conns |-> 0]
        /\ served = [c \in Conns |-> FALSE]
Send(c) == /\ pc[c] = "idle" /\ n < Reqs /\ n' = n + 1
           /\ \E k \in Kinds, h \in Strings : req' = [req EXCEPT ![c] = [k |-> k, t |-> 2, hdr |-> h]]
           /\ pc' = [pc EXCEPT ![c] = IF Len(req'[c].hdr) = Len(want) THEN "cmp" ELSE "deny"]
           /\ i' = [i EXCEPT ![c] = 1] /\ diff' = [diff EXCEPT ![c] = 0]
           /\ served' = [served EXCEPT ![c] = FALSE] /\ UNCHANGED <<want, held, told>>
Cmp(c) == /\ pc[c] = "cmp"
          /\ IF i[c] > Len(want) \/ (EarlyExit /\ i[c] > 1 /\ diff[c] = 0) THEN pc' = [pc EXCEPT ![c] = IF diff[c] = 0 THEN "serve" ELSE "deny"] /\ UNCHANGED <<i, diff>>
             ELSE /\ diff' = [diff EXCEPT ![c] = IF @ = 1 \/ want[i[c]] # req[c].hdr[i[c]] THEN 1 ELSE 0]
                  /\ i' = [i EXCEPT ![c] = @ + 1] /\ UNCHANGED pc
          /\ UNCHANGED <<want, held, req, served, n, told>>
Serve(c) == /\ pc[c] = "serve" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ served' = [served EXCEPT ![c] = TRUE]
            /\ held' = After(held, req[c].k, req[c].t)
            /\ told' = told \cup {<<req[c].hdr, x>> : x \in Tells(held, req[c].k, req[c].t)}
            /\ UNCHANGED <<want, req, i, diff, n>>
Deny(c) == /\ pc[c] = "deny" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<want, held, req, i, diff, served, n, told>>
Next == \E c \in Conns : Send(c) \/ Cmp(c) \/ Serve(c) \/ Deny(c)
Spec == Init /\ [][Next]_vars
Creds(c) == <<[exact |-> TRUE, dec |-> req[c].hdr]>>
\* answered requests were served exactly when they had the password
Decided == \A c \in Conns : pc[c] = "idle" /\ req[c].k # "none" => (served[c] <=> Must(want, Creds(c)))
NothingTold == \A x \in told : x[1] = want
NothingChanged == [][held' # held => \E c \in Conns : pc[c] = "serve" /\ req[c].hdr = want]_vars
=============================================================================
