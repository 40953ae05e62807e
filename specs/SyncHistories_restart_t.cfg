CONSTANTS
  Keys = 2
  Max = 4
  Squash = FALSE
  Restart = TRUE
  Starts = {0, 1, 2}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
