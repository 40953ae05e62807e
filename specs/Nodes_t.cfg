SPECIFICATION Spec
CONSTANTS Names={"t1","t2","T1"} Wide=TRUE
INVARIANT EmitInv
PROPERTY Unchanged
CHECK_DEADLOCK FALSE
