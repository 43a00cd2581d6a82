SPECIFICATION Spec
CONSTANT MaxLen = 3
CONSTANT MaxFew = 5
INVARIANTS Sane Passed Generate
CHECK_DEADLOCK FALSE
