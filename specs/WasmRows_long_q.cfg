SPECIFICATION Spec
CONSTANTS Sigs <- SigC MaxRows=2 MaxBatches=2 Nulls=TRUE Width=1
INVARIANTS RowWise OnePerRow EmitInv
CHECK_DEADLOCK FALSE
