---------------------------- MODULE HttpTraceMC ----------------------------
(* All call trees of up to MaxCalls calls, in all interleavings and with   *)
(* transport failures before and after the request arrived.                *)
EXTENDS HttpTrace, TLC
CONSTANTS MaxCalls, External
VARIABLES calls, rec, next
vars == <<calls, rec, next>>
Out == [t |-> 1, s |-> 1, p |-> 0]
\* calls[k] = [from, cid, sid, client, server], client and server being
\* "no", "busy" and "done"; cid and sid are the span IDs of the two sides
Init == /\ rec = {} /\ next = 2
        /\ calls = IF External THEN <<[from |-> -1, cid |-> Out, sid |-> Out, client |-> "done", server |-> "no"]>> ELSE <<>>
Ctx(f) == IF f = 0 THEN Out ELSE calls[f].sid
Running(f) == IF f = 0 THEN ~External /\ [k |-> 0, side |-> "r", id |-> Out] \notin rec ELSE calls[f].server = "busy"
Quiet(f) == \A k \in DOMAIN calls : calls[k].from = f => calls[k].client = "done"
Call(f) == /\ Running(f) /\ Len(calls) < MaxCalls
           /\ calls' = Append(calls, [from |-> f, cid |-> Child(Ctx(f), next), sid |-> Child(Ctx(f), next + 1), client |-> "busy", server |-> "no"])
           /\ next' = next + 2 /\ UNCHANGED rec
Arrive(k) == /\ calls[k].server = "no" /\ (calls[k].client = "busy" \/ calls[k].from = -1)
             /\ calls' = [calls EXCEPT ![k].server = "busy"] /\ UNCHANGED <<rec, next>>
Return(k) == /\ calls[k].server = "busy" /\ Quiet(k)
             /\ calls' = [calls EXCEPT ![k].server = "done"]
             /\ rec' = rec \cup {[k |-> k, side |-> "s", id |-> calls[k].sid]} /\ UNCHANGED next
\* the response or a failure reaches the caller (a failure at any time)
Back(k) == /\ calls[k].client = "busy"
           /\ calls' = [calls EXCEPT ![k].client = "done"]
           /\ rec' = rec \cup {[k |-> k, side |-> "c", id |-> calls[k].cid]} /\ UNCHANGED next
FinishOuter == /\ ~External /\ Running(0) /\ Quiet(0)
               /\ rec' = rec \cup {[k |-> 0, side |-> "r", id |-> Out]} /\ UNCHANGED <<calls, next>>
Next == \/ \E f \in 0..Len(calls) : Call(f)
        \/ \E k \in DOMAIN calls : Arrive(k) \/ Return(k) \/ Back(k)
        \/ FinishOuter
Spec == Init /\ [][Next]_vars
Over == /\ (IF External THEN calls[1].server = "done" ELSE ~Running(0))
        /\ \A k \in DOMAIN calls : calls[k].client = "done" /\ calls[k].server # "busy"
Tree == Over => Connected(rec, Out)
OncePerSide == Over => \A k \in DOMAIN calls :
    /\ Cardinality({r \in rec : r.k = k /\ r.side = "c"}) = (IF calls[k].from = -1 THEN 0 ELSE 1)
    /\ Cardinality({r \in rec : r.k = k /\ r.side = "s"}) = (IF calls[k].server = "done" THEN 1 ELSE 0)
=============================================================================
