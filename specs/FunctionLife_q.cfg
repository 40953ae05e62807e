CONSTANTS
  Server = {"A", "B"}
  Def = {"one", "flt"}
  Bad = {"untyped"}
  MaxFns = 2
  Lists <- TwoLists
SPECIFICATION Spec
VIEW View
PROPERTIES Apart Inert Last
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
