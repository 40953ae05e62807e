SPECIFICATION Spec
CONSTANTS Sigs <- SigC MaxRows=4 MaxBatches=3 Nulls=TRUE Width=1
INVARIANTS RowWise OnePerRow EmitInv
CHECK_DEADLOCK FALSE
