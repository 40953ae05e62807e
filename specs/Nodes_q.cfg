SPECIFICATION Spec
CONSTANTS Names={"t1","t2"} Wide=FALSE
INVARIANT EmitInv
PROPERTY Unchanged
CHECK_DEADLOCK FALSE
