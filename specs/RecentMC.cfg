SPECIFICATION Spec
CONSTANTS
  Min = 3
  Traces = {1, 2, 3}
  Horizon = 14
  MaxStep = 5
INVARIANTS Tracks NotTooYoung Bounded
PROPERTIES Never_Stuck
CHECK_DEADLOCK FALSE
