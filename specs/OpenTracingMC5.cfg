SPECIFICATION Spec
CONSTANTS MaxSpans = 3
 MaxOps = 5
 Verbose = FALSE
INVARIANTS OneDecision Linked Complete Lines
CHECK_DEADLOCK FALSE
