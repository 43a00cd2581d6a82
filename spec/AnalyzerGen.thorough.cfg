SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Weights = {1, 2, 3}
INVARIANTS ScanOK Exists Optimal Tiling Precedence UnknownShape SearchDearer Generate
CHECK_DEADLOCK FALSE
