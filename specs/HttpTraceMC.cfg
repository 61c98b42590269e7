SPECIFICATION Spec
CONSTANTS
  MaxCalls = 5
  External = FALSE
INVARIANTS Tree OncePerSide
CHECK_DEADLOCK FALSE
