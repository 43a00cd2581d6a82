CONSTANTS Conns = {c1, c2} Per = 2 Small = 1 History = FALSE
SPECIFICATION Spec
INVARIANTS Own Total
PROPERTIES Answered
CHECK_DEADLOCK FALSE
