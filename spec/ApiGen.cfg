CONSTANTS Conns = {c1} Per = 2 Small = 0 History = TRUE
SPECIFICATION Spec
INVARIANTS Own Generate
CHECK_DEADLOCK FALSE
