SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  SettingNos = {1, 2, 3, 4, 5, 6, 7}
  History = FALSE
INVARIANTS Safe NothingLost NoneEmpty Reasons
CHECK_DEADLOCK FALSE
