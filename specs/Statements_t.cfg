SPECIFICATION Spec
CONSTANTS MaxClauses=4 Rich=TRUE
INVARIANTS RequiredSet EmitInv
CHECK_DEADLOCK FALSE
