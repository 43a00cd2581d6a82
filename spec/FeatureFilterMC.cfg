SPECIFICATION Spec
CONSTANTS
  MaxPat = 4
  MaxPatLen = 2
  MaxVecLen = 3
INVARIANTS TreeIsList NoRedundancy Generate
CHECK_DEADLOCK FALSE
