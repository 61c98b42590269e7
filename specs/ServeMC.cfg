SPECIFICATION Spec
CONSTANTS
  N = 3
  Conns = {1, 2}
  Kills = 2
  InPlace = FALSE
  Need = 2
INVARIANT Sound
CHECK_DEADLOCK FALSE
