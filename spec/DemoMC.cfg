CONSTANTS Graph = 3 Cap = 1 MaxProg = 3 History = FALSE
SPECIFICATION Spec
INVARIANTS PageRight Bounded NothingLeft
PROPERTIES AlwaysAnswers
CHECK_DEADLOCK FALSE
