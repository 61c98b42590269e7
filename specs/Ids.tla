--------------------------------- MODULE Ids ---------------------------------
(***************************************************************************)
(* New span IDs.  A span ID is [t, s, p]: its trace, its own ID and its    *)
(* parent's.  used is the set of IDs generated so far, by all callers of   *)
(* all processes.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* a root span takes two new IDs
Root(used, id) == /\ id.t # id.s /\ {id.t, id.s} \cap (used \cup {0}) = {} /\ id.p = 0
RootUsed(used, id) == used \cup {id.t, id.s}

\* a child takes one, and belongs to its parent
Child(used, par, id) == /\ id.t = par.t /\ id.p = par.s
                        /\ id.s \notin used \cup {0, par.t, par.s, par.p}
ChildUsed(used, id) == used \cup {id.s}
=============================================================================
