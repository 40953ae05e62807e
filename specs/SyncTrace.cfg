SPECIFICATION TraceSpec
INVARIANT Replay
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
