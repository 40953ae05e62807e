SPECIFICATION Spec
CONSTANTS Sigs <- Sig0 MaxRows=3 MaxBatches=2 Nulls=FALSE Width=1
INVARIANTS RowWise OnePerRow EmitInv
CHECK_DEADLOCK FALSE
