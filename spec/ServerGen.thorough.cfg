SPECIFICATION Spec
CONSTANTS Reqs = {1, 2, 3}  History = TRUE  MaxLen = 7
INVARIANTS Released NothingCut StopsOnlyWhenAsked ServesUntilAsked Generate
CHECK_DEADLOCK FALSE
