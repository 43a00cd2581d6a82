SPECIFICATION Spec
CONSTANTS
  Quota <- Quota3
  Calls = {1, 2}
  History = FALSE
INVARIANTS Isolated InProgress Exclusive FreeIsClean
CHECK_DEADLOCK FALSE
