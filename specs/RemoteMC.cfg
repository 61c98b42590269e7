SPECIFICATION Spec
CONSTANTS
  Calls = {1, 2, 3, 4}
  MaxConns = 3
INVARIANTS OkOnSound OncePerTry TwoTries ErrOnlyDown
CHECK_DEADLOCK FALSE
