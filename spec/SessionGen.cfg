SPECIFICATION Spec
CONSTANTS
  Quota <- Quota21
  Calls = {1, 2, 3}
  History = TRUE
INVARIANTS Isolated Generate
CHECK_DEADLOCK FALSE
