SPECIFICATION Spec
CONSTANT MaxOpts = 3
INVARIANTS Refused OmitSticks LastUserWins NopIsNothing Laws
CHECK_DEADLOCK FALSE
