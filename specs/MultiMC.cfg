SPECIFICATION Spec
CONSTANTS MaxParts = 3
 Traces = {1, 2}
 MaxOps = 4
INVARIANTS Everywhere Agree Split Nest
CHECK_DEADLOCK FALSE
