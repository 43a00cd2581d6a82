SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
INVARIANTS Consistent NoStopWord Generate
CHECK_DEADLOCK FALSE
