SPECIFICATION Spec
CONSTANTS N = 1
 I = 1
 E = 3
 M = 3
 Wrong = FALSE
INVARIANTS FindRight SubRight TimesRight
CHECK_DEADLOCK FALSE
