\* the uploads as they were before they waited for each other
SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Traces = {1, 2}
  Spans = 2
  Locked = FALSE
INVARIANTS NoMix
CHECK_DEADLOCK FALSE
