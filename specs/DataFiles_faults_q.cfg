CONSTANTS
  Limits = {1, 9}
  MaxRows = 3
  MaxBatches = 1
  Kinds = {"b"}
  Cuts = FALSE
  Faults = {1, 2, 3, 4, 5, 6}
  Stores = {"memory"}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
