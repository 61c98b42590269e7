SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Base = 2
  Digits = 2
  Calls = 3
  Starts = 1
  Locked = TRUE
INVARIANT Distinct
INVARIANT Linked
CHECK_DEADLOCK FALSE
