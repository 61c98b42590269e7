SPECIFICATION Spec
CONSTANTS
  Len_ = 3
  Conns = {1, 2}
  Reqs = 3
  EarlyExit = FALSE
INVARIANT Decided
INVARIANT NothingTold
PROPERTY NothingChanged
CHECK_DEADLOCK FALSE
