CONSTANTS Max = 7 MaxPos = 4 MaxCont = 8
SPECIFICATION Spec
INVARIANTS Agree Generate
CHECK_DEADLOCK FALSE
