CONSTANTS
  Server = {"A", "B"}
  File = {11, 12}
  MaxTabs = 3
SPECIFICATION Spec
VIEW View
INVARIANT Inside
PROPERTIES Own Inert
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
