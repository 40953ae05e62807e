CONSTANTS
  Server = {"A", "B"}
  Def = {"one", "two", "flt"}
  Bad = {"untyped", "not code", "no such entry"}
  MaxFns = 3
  Lists <- TwoLists
SPECIFICATION Spec
VIEW View
PROPERTIES Apart Inert Last
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
