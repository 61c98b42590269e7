SPECIFICATION Spec
CONSTANTS MaxStray = 1
INVARIANTS Unambiguous Own RoundTrip Absent
CHECK_DEADLOCK FALSE
