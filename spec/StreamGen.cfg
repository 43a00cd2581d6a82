SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxCuts = 3
  History = TRUE
INVARIANTS Sound Generate
CHECK_DEADLOCK FALSE
