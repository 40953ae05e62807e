SPECIFICATION Spec
CONSTANTS MaxRoutes=2 Detail=FALSE
INVARIANTS Alike EmitInv
CHECK_DEADLOCK FALSE
