SPECIFICATION Spec
CONSTANTS N = 1
 I = 1
 E = 2
 M = 2
 Wrong = TRUE
INVARIANTS TimesRight
CHECK_DEADLOCK FALSE
