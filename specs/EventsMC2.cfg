SPECIFICATION Spec
CONSTANTS MaxStray = 2
INVARIANTS Unambiguous Own RoundTrip Absent
CHECK_DEADLOCK FALSE
