SPECIFICATION Fair
CONSTANTS Reqs = {1, 2, 3}  History = FALSE  MaxLen = 0
INVARIANTS Released NothingCut StopsOnlyWhenAsked ServesUntilAsked
PROPERTIES EveryRequestEnds StopLeadsToReturn
CHECK_DEADLOCK FALSE
