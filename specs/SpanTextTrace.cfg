SPECIFICATION Spec
CONSTANT W = 16
INVARIANT Report
CHECK_DEADLOCK FALSE
