SPECIFICATION Spec
CONSTANTS
  Traces = {1}
  Spans = {1, 2, 3, 4, 5}
  MaxAnns = 0
  MaxOps = 5
  WithSave = FALSE
  Malformed = FALSE
INVARIANTS Inv Confluent
PROPERTY Isolation
CHECK_DEADLOCK FALSE
