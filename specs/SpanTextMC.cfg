SPECIFICATION Spec
CONSTANTS
  W = 2
  Alphabet = {47, 48, 49, 102, 70, 103}
  MaxLen = 7
  Digits = {0, 1, 9, 10, 15}
INVARIANTS RoundTrip Grammar Normal
CHECK_DEADLOCK FALSE
