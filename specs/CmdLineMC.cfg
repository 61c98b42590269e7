SPECIFICATION Spec
CONSTANTS Senders = {1, 2, 3}
 Spans = 4
 Flips = 3
 After = TRUE
INVARIANTS Honest Nothing
CHECK_DEADLOCK FALSE
