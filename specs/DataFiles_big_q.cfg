CONSTANTS
  Limits = {2, 9}
  MaxRows = 3
  MaxBatches = 2
  Kinds = {"s", "b"}
  Cuts = FALSE
  Faults = {0}
  Stores = {"memory"}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
