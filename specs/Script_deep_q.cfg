SPECIFICATION Spec
CONSTANTS MaxStmts=3 Use={1,3,5,7,9,14,19} Seps <- SepD
INVARIANTS AllWanted EmitInv
CHECK_DEADLOCK FALSE
