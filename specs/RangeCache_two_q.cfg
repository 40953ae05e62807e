CONSTANTS
  C = 2
  Lens <- TwoObjects
  MaxEnd = 7
  Pairs <- SomePairs
  Faults = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTIES Keeps Full
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
