SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Traces = {1, 2}
  Spans = 2
  Locked = TRUE
INVARIANTS NoMix Prior Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
