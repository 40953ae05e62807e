SPECIFICATION Spec
CONSTANTS Threads=3 Ops <- OpsT MaxLen=2 Limit=3 Relative=TRUE
INVARIANTS Agrees Balance EmitInv
CHECK_DEADLOCK FALSE
