SPECIFICATION Spec
CONSTANTS Base <- BaseQ Added <- AddedQ Depth=2
INVARIANTS Counted EmitInit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
