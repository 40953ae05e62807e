SPECIFICATION Spec
CONSTANTS MaxLines=4 Lines={"d","q","dt","s","open","close","badrun"}
INVARIANTS Planned EmitInv
PROPERTY NothingFromUnfinished
CHECK_DEADLOCK FALSE
