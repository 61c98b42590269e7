SPECIFICATION Spec
CONSTANTS
  N = 4
  Conns = {1, 2}
  Kills = 3
  InPlace = FALSE
  Need = 2
INVARIANT Sound
CHECK_DEADLOCK FALSE
