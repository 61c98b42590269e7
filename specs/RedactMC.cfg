SPECIFICATION Spec
CONSTANTS MaxFields = 3
INVARIANTS Right Silent
CHECK_DEADLOCK FALSE
