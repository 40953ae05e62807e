SPECIFICATION Spec
CONSTANTS MaxCols=1 TypesFirst <- All TypesMore <- All
INVARIANTS Faithful EmitInv
CHECK_DEADLOCK FALSE
