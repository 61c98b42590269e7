SPECIFICATION Spec
INVARIANTS RoundTrip Prefixes Before Within
CHECK_DEADLOCK FALSE
