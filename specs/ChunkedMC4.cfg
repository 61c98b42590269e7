SPECIFICATION Spec
CONSTANTS
  Spans = {1, 2}
  MaxN = 4
  Horizon = 5
  Interval = 2
  Timeout = 1
  Max = 5
  Sizes = {2}
  Manual = {1}
INVARIANTS Account OncePerSpan BoundedQ OnTime InOrder
PROPERTIES Final
CHECK_DEADLOCK FALSE
