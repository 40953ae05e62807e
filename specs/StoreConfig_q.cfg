SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
