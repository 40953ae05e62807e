CONSTANTS
  C = 3
  Lens <- ThreeObjects
  MaxEnd = 9
  Pairs <- SomePairs
  Faults = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTIES Keeps Full
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
