CONSTANTS Max = 4 MaxPos = 3 MaxCont = 5
SPECIFICATION Spec
INVARIANTS Agree Generate
CHECK_DEADLOCK FALSE
