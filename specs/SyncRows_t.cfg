CONSTANTS
  Key = {1, 2}
  Schemas = {"vw", "v", "VW", "W"}
  Max = 3
  Again = {FALSE}
  MoveUnset = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Sound Replay
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
