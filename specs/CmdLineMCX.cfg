SPECIFICATION Spec
CONSTANTS Senders = {1}
 Spans = 4
 Flips = 3
 After = FALSE
INVARIANT Honest
CHECK_DEADLOCK FALSE
