SPECIFICATION Spec
CONSTANTS
  Calls = {1, 2, 3, 4, 5}
  MaxConns = 4
INVARIANTS OkOnSound OncePerTry TwoTries ErrOnlyDown
CHECK_DEADLOCK FALSE
