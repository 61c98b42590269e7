SPECIFICATION Spec
CONSTANTS
  MaxVer = 5
  Chunks = 3
  File0 = 0
  Direct = FALSE
INVARIANTS Complete Latest NoStray
PROPERTIES Forward NeverMissing
CHECK_DEADLOCK FALSE
