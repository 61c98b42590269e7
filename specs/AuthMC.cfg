SPECIFICATION Spec
CONSTANTS
  Len_ = 2
  Conns = {1, 2}
  Reqs = 2
  EarlyExit = FALSE
INVARIANT Decided
INVARIANT NothingTold
PROPERTY NothingChanged
CHECK_DEADLOCK FALSE
