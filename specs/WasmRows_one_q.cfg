SPECIFICATION Spec
CONSTANTS Sigs <- Sig1 MaxRows=1 MaxBatches=1 Nulls=TRUE Width=99
INVARIANTS RowWise OnePerRow EmitInv
CHECK_DEADLOCK FALSE
