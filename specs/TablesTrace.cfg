SPECIFICATION TraceSpec
CONSTANTS Names = {"t", "u", "v"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
