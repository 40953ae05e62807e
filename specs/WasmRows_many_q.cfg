SPECIFICATION Spec
CONSTANTS Sigs <- Sig2 MaxRows=1 MaxBatches=1 Nulls=FALSE Width=2
INVARIANTS RowWise OnePerRow EmitInv
CHECK_DEADLOCK FALSE
