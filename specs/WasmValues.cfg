SPECIFICATION Spec
INVARIANTS Agree EmitInv
CHECK_DEADLOCK FALSE
