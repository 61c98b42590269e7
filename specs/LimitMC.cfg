SPECIFICATION Spec
CONSTANTS
  Maxes = {0, 1, 2, 3}
  Traces = {1, 2, 3, 4}
  Steps = 7
INVARIANTS Bounded Refines OneOut OldestOut
CHECK_DEADLOCK FALSE
