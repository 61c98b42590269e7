SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxT = 2
  MaxTraces = 2
INVARIANTS Sums Positive Flip
CHECK_DEADLOCK FALSE
