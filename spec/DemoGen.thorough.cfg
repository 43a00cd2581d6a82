CONSTANTS Graph = 1 Cap = 1 MaxProg = 3 History = TRUE
SPECIFICATION Spec
INVARIANTS PageRight Generate
CHECK_DEADLOCK FALSE
