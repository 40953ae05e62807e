SPECIFICATION Spec
CONSTANTS MaxCols=2 TypesFirst <- Some TypesMore <- Some
INVARIANTS Faithful EmitInv
CHECK_DEADLOCK FALSE
