SPECIFICATION Spec
CONSTANTS MaxGiven=2 MaxEnv=3 AllSpellings=FALSE
INVARIANTS OneAccount ExplicitWins EmitInv
CHECK_DEADLOCK FALSE
