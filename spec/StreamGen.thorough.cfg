SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxCuts = 5
  History = TRUE
INVARIANTS Sound Generate
CHECK_DEADLOCK FALSE
