SPECIFICATION Spec
CONSTANTS
  MaxPat = 3
  MaxPatLen = 3
  MaxVecLen = 3
INVARIANTS TreeIsList NoRedundancy Generate
CHECK_DEADLOCK FALSE
