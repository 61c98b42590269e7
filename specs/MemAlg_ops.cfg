SPECIFICATION Spec
CONSTANTS
  Traces = {1, 2}
  Spans = {1, 2}
  MaxAnns = 1
  MaxOps = 4
  WithSave = TRUE
  Malformed = TRUE
INVARIANTS Inv Confluent
PROPERTY Isolation
CHECK_DEADLOCK FALSE
