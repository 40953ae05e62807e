CONSTANTS
  Limits = {1, 2, 9}
  MaxRows = 4
  MaxBatches = 1
  Kinds = {"s", "b"}
  Cuts = FALSE
  Faults = {1, 2, 3, 4, 5, 6, 7, 8}
  Stores = {"memory"}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
