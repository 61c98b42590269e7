SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2}
  Base = 2
  Digits = 2
  Calls = 3
  Starts = 0
  Locked = FALSE
INVARIANT Distinct
INVARIANT Linked
CHECK_DEADLOCK FALSE
