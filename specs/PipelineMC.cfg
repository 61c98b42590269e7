SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Fails = 1
  Requeue = FALSE
  Shapes = 1
INVARIANT NothingElse
INVARIANT Complete
CHECK_DEADLOCK FALSE
