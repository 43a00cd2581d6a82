SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Weights = {3}
INVARIANTS Highlighted AllDrawn GenerateGraph
CHECK_DEADLOCK FALSE
