---------------------------- MODULE HttpTraceGen ----------------------------
(* Call trees: calls[k] = [up, fail, conc], up < k being the call whose    *)
(* handler makes call k (0: the outermost span).  With L > 0, all scripts  *)
(* of L operations of the handler.                                         *)
EXTENDS HttpTrace, TLC, Json
CONSTANTS N, Fails, Roots, L, Methods
Codes == {200, 404, 103, 204}
Ops == {<<"H", c>> : c \in Codes} \cup {<<"W", 0>>, <<"W", 5>>, <<"F", 0>>, <<"L", 5>>}
VARIABLES calls, ops, root, meth
Init == calls = <<>> /\ ops = <<>> /\ root \in Roots /\ meth \in Methods
AddCall == /\ Len(calls) < N
           /\ \E up \in 0..Len(calls), f \in Fails :
                 /\ (up = 0 => (root = "rec" \/ calls = <<>>))
                 /\ (up > 0 => calls[up].fail # "before")
                 /\ (root # "rec" /\ calls = <<>> => f = "no")
                 /\ (Len(calls) > 0 => up >= calls[Len(calls)].up)
                 /\ calls' = Append(calls, [up |-> up, fail |-> f])
           /\ UNCHANGED <<ops, root, meth>>
AddOp == /\ Len(calls) = N /\ Len(ops) < L
         /\ \E o \in Ops : ops' = Append(ops, o)
         /\ UNCHANGED <<calls, root, meth>>
Next == AddCall \/ AddOp
Spec == Init /\ [][Next]_<<calls, ops, root, meth>>
Emit == (Len(calls) = N /\ Len(ops) = L /\ Complete(ops)) =>
            PrintT("@@S " \o ToJson([calls |-> calls, ops |-> ops, root |-> root, meth |-> meth]))
=============================================================================
