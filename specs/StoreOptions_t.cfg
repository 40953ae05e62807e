SPECIFICATION Spec
CONSTANTS MaxGiven=3 MaxEnv=4 AllSpellings=TRUE
INVARIANTS OneAccount ExplicitWins EmitInv
CHECK_DEADLOCK FALSE
