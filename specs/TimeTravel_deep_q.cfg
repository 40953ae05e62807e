SPECIFICATION Spec
CONSTANTS Base <- BaseD Added <- AddedD Depth=3
INVARIANTS Counted EmitInit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
