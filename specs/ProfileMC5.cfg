SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxT = 2
  MaxTraces = 0
INVARIANTS CalcIsProfile RootCum Nested Parts Sums Positive
CHECK_DEADLOCK FALSE
