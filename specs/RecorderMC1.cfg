SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Logger = TRUE
INVARIANTS Once AllReported Whole Held
CHECK_DEADLOCK FALSE
