SPECIFICATION Spec
CONSTANTS
  Traces = {1}
  Spans = {1, 2, 3, 4}
  MaxAnns = 0
  MaxOps = 4
  WithSave = FALSE
  Malformed = FALSE
INVARIANTS Inv Confluent
PROPERTY Isolation
CHECK_DEADLOCK FALSE
