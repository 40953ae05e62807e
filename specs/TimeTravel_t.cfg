SPECIFICATION Spec
CONSTANTS Base <- BaseT Added <- AddedQ Depth=3
INVARIANTS Counted EmitInit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
