SPECIFICATION Spec
CONSTANTS
  MaxCalls = 5
  External = TRUE
INVARIANTS Tree OncePerSide
CHECK_DEADLOCK FALSE
