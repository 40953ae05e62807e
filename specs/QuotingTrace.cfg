SPECIFICATION TraceSpec
CONSTANTS MaxLen=0 Alphabet={}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
