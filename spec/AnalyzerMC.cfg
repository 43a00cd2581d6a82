SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Weights = {3}
INVARIANTS ScanOK Exists Optimal Tiling Precedence UnknownShape SearchDearer
CHECK_DEADLOCK FALSE
