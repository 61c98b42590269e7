SPECIFICATION Spec
CONSTANTS MaxSpans = 3
 MaxOps = 4
 Verbose = FALSE
INVARIANTS OneDecision Linked Complete Lines
CHECK_DEADLOCK FALSE
