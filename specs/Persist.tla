------------------------------ MODULE Persist ------------------------------
(***************************************************************************)
(* Periodic persistence of a store to a file.  Versions of the store are   *)
(* numbered; 0 is "no file".  The design: write a temporary file in the    *)
(* directory of the target, close it, rename it over the target; remove it *)
(* when a step fails.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxVer, Chunks, File0,
          Direct   \* a wrong design for comparison: write the target itself

VARIABLES store,  \* current version of the store
          file,   \* [v, n]: version and number of chunks present in the target
          tmp,    \* [v, n] or None
          phase,  \* "sleep", "write", "closed", "failed", "returned", "crashed"
          saving, \* version being saved
          done    \* last version saved successfully
vars == <<store, file, tmp, phase, saving, done>>
None == [v |-> 0, n |-> 0]
Whole(v) == [v |-> v, n |-> IF v = 0 THEN 0 ELSE Chunks]

Init == /\ store = File0 + 1 /\ file = Whole(File0) /\ tmp = None
        /\ phase = "sleep" /\ saving = 0 /\ done = File0

Collect == /\ store < MaxVer /\ store' = store + 1
           /\ phase # "crashed"
           /\ UNCHANGED <<file, tmp, phase, saving, done>>
Begin == /\ phase = "sleep" /\ phase' = "write" /\ saving' = store
         /\ IF Direct THEN file' = [v |-> store, n |-> 0] /\ UNCHANGED tmp
                      ELSE tmp' = [v |-> store, n |-> 0] /\ UNCHANGED file
         /\ UNCHANGED <<store, done>>
Chunk == /\ phase = "write"
         /\ IF Direct THEN file.n < Chunks /\ file' = [file EXCEPT !.n = @ + 1] /\ UNCHANGED tmp
                      ELSE tmp.n < Chunks /\ tmp' = [tmp EXCEPT !.n = @ + 1] /\ UNCHANGED file
         /\ UNCHANGED <<store, phase, saving, done>>
Close == /\ phase = "write" /\ (IF Direct THEN file.n ELSE tmp.n) = Chunks
         /\ phase' = "closed" /\ UNCHANGED <<store, file, tmp, saving, done>>
Rename == /\ phase = "closed" /\ phase' = "sleep"
          /\ (IF Direct THEN UNCHANGED file ELSE file' = tmp)
          /\ tmp' = None /\ done' = saving
          /\ UNCHANGED <<store, saving>>
Fail == /\ phase \in {"write", "closed"} /\ phase' = "failed"
        /\ UNCHANGED <<store, file, tmp, saving, done>>
Return == /\ phase = "failed" /\ phase' = "returned" /\ tmp' = None
          /\ UNCHANGED <<store, file, saving, done>>
Crash == /\ phase \notin {"returned", "crashed"} /\ phase' = "crashed"
         /\ UNCHANGED <<store, file, tmp, saving, done>>

Next == Collect \/ Begin \/ Chunk \/ Close \/ Rename \/ Fail \/ Return \/ Crash
Spec == Init /\ [][Next]_vars

Complete == file = Whole(file.v)
Latest == file.v = done \/ (phase = "crashed" /\ file.v >= done)
NoStray == phase \in {"sleep", "returned"} => tmp = None
Forward == [][file'.v >= file.v]_vars
NeverMissing == [][file.v # 0 => file'.v # 0]_vars
=============================================================================
