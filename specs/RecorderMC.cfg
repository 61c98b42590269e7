SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Logger = FALSE
INVARIANTS Once AllReported Whole Held
CHECK_DEADLOCK FALSE
