SPECIFICATION Spec
CONSTANTS Sigs <- SigR MaxRows=2 MaxBatches=2 Nulls=TRUE Width=2
INVARIANTS RowWise OnePerRow EmitInv
CHECK_DEADLOCK FALSE
