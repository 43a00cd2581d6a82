SPECIFICATION Spec
CONSTANTS Users = {1, 2, 3}  Pools = {1, 2}  MaxObj = 5  MaxLen = 9  History = FALSE
INVARIANTS OneOwner SamePool Known
VIEW View
CHECK_DEADLOCK FALSE
