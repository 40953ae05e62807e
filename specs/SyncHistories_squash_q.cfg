CONSTANTS
  Keys = 2
  Max = 4
  Squash = TRUE
  Restart = FALSE
  Starts = {0, 1, 2}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
