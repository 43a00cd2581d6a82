SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
INVARIANTS Consistent NoStopWord Generate
CHECK_DEADLOCK FALSE
