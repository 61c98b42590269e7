SPECIFICATION Spec
CONSTANT Packets = {7, 60}
INVARIANTS Prefix ClosedLate
PROPERTY AllDone
CHECK_DEADLOCK FALSE
