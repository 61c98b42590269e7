SPECIFICATION Spec
CONSTANTS
  Inst = {1, 2}
  Traces = {1, 2}
  MaxOps = 7
INVARIANTS Genuine DocsGenuine ParIsSome FitsIsMixed
PROPERTIES Keeps Stores
CHECK_DEADLOCK FALSE
