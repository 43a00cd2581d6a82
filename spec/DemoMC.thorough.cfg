CONSTANTS Graph = 3 Cap = 2 MaxProg = 4 History = FALSE
SPECIFICATION Spec
INVARIANTS PageRight Bounded NothingLeft
PROPERTIES AlwaysAnswers
CHECK_DEADLOCK FALSE
