SPECIFICATION Spec
CONSTANTS MaxCols=3 TypesFirst <- SomeT TypesMore <- SomeT
INVARIANTS Faithful EmitInv
CHECK_DEADLOCK FALSE
