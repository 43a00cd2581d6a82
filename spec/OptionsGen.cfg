SPECIFICATION Spec
CONSTANT MaxLen = 2
CONSTANT MaxFew = 4
INVARIANTS Sane Passed Generate
CHECK_DEADLOCK FALSE
