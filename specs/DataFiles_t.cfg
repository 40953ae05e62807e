CONSTANTS
  Limits = {1, 2, 3, 5}
  MaxRows = 5
  MaxBatches = 5
  Kinds = {"s"}
  Cuts = TRUE
  Faults = {0}
  Stores = {"memory", "dir"}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
