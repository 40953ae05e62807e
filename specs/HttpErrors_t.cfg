SPECIFICATION Spec
CONSTANTS MaxRoutes=3 Detail=FALSE
INVARIANTS Alike EmitInv
CHECK_DEADLOCK FALSE
