SPECIFICATION Spec
CONSTANTS N = 4
 I = 3
 E = 1
 M = 1
 Wrong = FALSE
INVARIANTS FindRight SubRight TimesRight
CHECK_DEADLOCK FALSE
