SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  SettingNos = {1, 2, 3, 4, 5, 6, 7}
  History = TRUE
INVARIANTS Safe Generate
CHECK_DEADLOCK FALSE
