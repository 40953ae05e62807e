SPECIFICATION Spec
CONSTANTS MaxClauses=4 Rich=FALSE
INVARIANTS RequiredSet EmitInv
CHECK_DEADLOCK FALSE
