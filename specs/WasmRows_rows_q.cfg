SPECIFICATION Spec
CONSTANTS Sigs <- SigR MaxRows=2 MaxBatches=1 Nulls=TRUE Width=1
INVARIANTS RowWise OnePerRow EmitInv
CHECK_DEADLOCK FALSE
