CONSTANTS
  C = 2
  Lens <- TraceObjects
  MaxEnd = 10
  Pairs <- NoPairs
  Faults = FALSE
  WatchData = FALSE
  WatchFiles = TRUE
SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
