SPECIFICATION TraceSpec
INVARIANT Allowed
CHECK_DEADLOCK FALSE
