SPECIFICATION TraceSpec
INVARIANT Verdict
CHECK_DEADLOCK FALSE
