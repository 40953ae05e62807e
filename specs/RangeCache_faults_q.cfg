CONSTANTS
  C = 2
  Lens <- OneObject
  MaxEnd = 7
  Pairs <- NoPairs
  Faults = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTIES Keeps Full
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
