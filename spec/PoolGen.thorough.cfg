SPECIFICATION Spec
CONSTANTS Users = {1, 2}  Pools = {1, 2}  MaxObj = 6  MaxLen = 7  History = TRUE
INVARIANTS OneOwner SamePool Known Generate
VIEW View
CHECK_DEADLOCK FALSE
