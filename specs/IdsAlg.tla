-------------------------------- MODULE IdsAlg --------------------------------
(***************************************************************************)
(* How the IDs are made: a counter of Digits digits (to base Base, digit 0 *)
(* the most significant) is encrypted to a block of two IDs, which are     *)
(* handed out one after the other; then the counter is incremented, with   *)
(* carries.  Encryption is a permutation of the counter values (here: the  *)
(* value itself, with the process's key).  Callers take turns under a lock *)
(* (with Locked = FALSE they do not, and the invariants fail).  A process  *)
(* may end and be started again, with a new key.                           *)
(***************************************************************************)
EXTENDS Ids, TLC
CONSTANTS Callers, Base, Digits, Calls, Starts, Locked
VARIABLES key, ctr, n, b, lock, pc, idx, got, want, spans, made, left
vars == <<key, ctr, n, b, lock, pc, idx, got, want, spans, made, left>>

None == [t |-> 0, s |-> 0, p |-> 0]
Blocks == LET F[k \in 0..Digits] == IF k = 0 THEN 1 ELSE Base * F[k - 1] IN F[Digits]
Value(c) == LET F[k \in 0..Digits] == IF k = 0 THEN 0 ELSE Base * F[k - 1] + c[k] IN F[Digits]
Enc(k, c) == <<1 + 2 * (k * Blocks + Value(c)), 2 + 2 * (k * Blocks + Value(c))>>

Init == /\ key = 0 /\ n = 2 /\ b = <<0, 0>> /\ lock = 0 /\ made = <<>> /\ left = Calls
        /\ ctr \in [1..Digits -> 0..(Base - 1)]
        /\ pc = [c \in Callers |-> "idle"] /\ idx = [c \in Callers |-> 0]
        /\ got = [c \in Callers |-> <<>>] /\ want = [c \in Callers |-> <<>>] /\ spans = {}

\* a caller asks for a root span (two IDs) or a child of a span there is
Ask(c) == /\ pc[c] = "idle" /\ left > 0 /\ left' = left - 1
          /\ \E w \in {<<>>} \cup {<<s>> : s \in spans} : want' = [want EXCEPT ![c] = w]
          /\ pc' = [pc EXCEPT ![c] = "enter"] /\ got' = [got EXCEPT ![c] = <<>>]
          /\ UNCHANGED <<key, ctr, n, b, lock, idx, spans, made>>
Enter(c) == /\ pc[c] = "enter" /\ (Locked => lock = 0) /\ lock' = c
            /\ pc' = [pc EXCEPT ![c] = IF n = 2 THEN "enc" ELSE "read"]
            /\ UNCHANGED <<key, ctr, n, b, idx, got, want, spans, made, left>>
Encrypt(c) == /\ pc[c] = "enc" /\ b' = Enc(key, ctr)
              /\ pc' = [pc EXCEPT ![c] = "inc"] /\ idx' = [idx EXCEPT ![c] = Digits]
              /\ UNCHANGED <<key, ctr, n, lock, got, want, spans, made, left>>
Inc(c) == /\ pc[c] = "inc"
          /\ ctr' = [ctr EXCEPT ![idx[c]] = (@ + 1) % Base]
          /\ IF ctr'[idx[c]] # 0 \/ idx[c] = 1
             THEN pc' = [pc EXCEPT ![c] = "zero"] /\ UNCHANGED idx
             ELSE idx' = [idx EXCEPT ![c] = @ - 1] /\ UNCHANGED pc
          /\ UNCHANGED <<key, n, b, lock, got, want, spans, made, left>>
Zeroed(c) == /\ pc[c] = "zero" /\ n' = 0 /\ pc' = [pc EXCEPT ![c] = "read"]
             /\ UNCHANGED <<key, ctr, b, lock, idx, got, want, spans, made, left>>
Read(c) == /\ pc[c] = "read" /\ n < 2 /\ got' = [got EXCEPT ![c] = Append(@, b[n + 1])]
           /\ made' = Append(made, b[n + 1])
           /\ pc' = [pc EXCEPT ![c] = "adv"]
           /\ UNCHANGED <<key, ctr, n, b, lock, idx, want, spans, left>>
Advance(c) == /\ pc[c] = "adv" /\ n' = n + 1 /\ lock' = 0
              /\ IF want[c] = <<>> /\ Len(got[c]) = 1
                 THEN pc' = [pc EXCEPT ![c] = "enter"] /\ UNCHANGED spans
                 ELSE /\ pc' = [pc EXCEPT ![c] = "idle"]
                      /\ spans' = spans \cup {IF want[c] = <<>> THEN [t |-> got[c][1], s |-> got[c][2], p |-> 0]
                                              ELSE [t |-> want[c][1].t, s |-> got[c][1], p |-> want[c][1].s]}
              /\ UNCHANGED <<key, ctr, b, idx, got, want, made, left>>
\* the process ends; another one goes on with the spans it was told about
Restart == /\ key < Starts /\ key' = key + 1 /\ n' = 2 /\ lock' = 0
           /\ \E c \in [1..Digits -> {0, Base - 1}] : ctr' = c
           /\ pc' = [c \in Callers |-> "idle"] /\ UNCHANGED <<b, idx, got, want, spans, made, left>>
Next == (\E c \in Callers : Ask(c) \/ Enter(c) \/ Encrypt(c) \/ Inc(c) \/ Zeroed(c) \/ Read(c) \/ Advance(c)) \/ Restart
Spec == Init /\ [][Next]_vars

Distinct == \A i, j \in DOMAIN made : i # j => made[i] # made[j]
\* every span is one that Ids allows
Linked == \A x \in spans :
    /\ x.t # 0 /\ x.s # 0 /\ x.s # x.t
    /\ x.p # 0 => \E y \in spans : y.s = x.p /\ y.t = x.t
    /\ x.p = 0 => \A y \in spans : y.p = 0 /\ y # x => y.t # x.t
    /\ \A y \in spans : y # x => y.s # x.s
=============================================================================
