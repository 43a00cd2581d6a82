SPECIFICATION Spec
CONSTANT MaxOpts = 4
INVARIANTS Refused OmitSticks LastUserWins NopIsNothing Laws
CHECK_DEADLOCK FALSE
