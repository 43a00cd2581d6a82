SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  MaxOps = 2
INVARIANTS Partition Generate
CHECK_DEADLOCK FALSE
