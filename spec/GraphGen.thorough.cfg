SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Weights = {3}
INVARIANTS Highlighted AllDrawn GenerateGraph
CHECK_DEADLOCK FALSE
