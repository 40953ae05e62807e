SPECIFICATION Spec
CONSTANTS Sigs <- Sig2 MaxRows=2 MaxBatches=2 Nulls=FALSE Width=2
INVARIANTS RowWise OnePerRow EmitInv
CHECK_DEADLOCK FALSE
