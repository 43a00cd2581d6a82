SPECIFICATION Spec
CONSTANTS Reqs = {1, 2}  History = TRUE  MaxLen = 5
INVARIANTS Released NothingCut StopsOnlyWhenAsked ServesUntilAsked Generate
CHECK_DEADLOCK FALSE
