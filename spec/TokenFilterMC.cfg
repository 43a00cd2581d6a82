SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxOps = 2
INVARIANTS Partition Generate
CHECK_DEADLOCK FALSE
