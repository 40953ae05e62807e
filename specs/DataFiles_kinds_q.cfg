CONSTANTS
  Limits = {1, 2, 4}
  MaxRows = 3
  MaxBatches = 2
  Kinds = {"s", "n", "e"}
  Cuts = TRUE
  Faults = {0}
  Stores = {"memory"}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
