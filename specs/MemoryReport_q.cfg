SPECIFICATION Spec
CONSTANTS Threads=2 Ops <- OpsQ MaxLen=2 Limit=3 Relative=TRUE
INVARIANTS Agrees Balance EmitInv
CHECK_DEADLOCK FALSE
