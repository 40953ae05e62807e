SPECIFICATION Spec
CONSTANTS MaxLines=5 Lines={"d","q","dt","x","ind","empty","s","open","close","badrun"}
INVARIANTS Planned EmitInv
PROPERTY NothingFromUnfinished
CHECK_DEADLOCK FALSE
