SPECIFICATION Spec
CONSTANTS MaxRoutes=1 Detail=TRUE
INVARIANTS Alike EmitInv
CHECK_DEADLOCK FALSE
