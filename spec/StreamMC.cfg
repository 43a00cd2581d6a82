SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxCuts = 9
  History = FALSE
INVARIANTS Sound Eager
PROPERTIES Prompt Finishes
CHECK_DEADLOCK FALSE
