------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded traces, and reporting how far each was explained.      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Recorded == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP
On(p) == Prop = p \/ Prop = "ALL"

\* printed once per trace that has been explained to its end
Done(tid) == PrintT("@@DONE " \o ToString(tid))
At(tid, l) == IF IOEnv.VERBOSE = "1" THEN PrintT("@@AT " \o ToString(tid) \o " " \o ToString(l)) ELSE TRUE
=============================================================================
