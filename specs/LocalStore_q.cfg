SPECIFICATION Spec
CONSTANTS Paths={"a/b/x","a/b/y","a/z","top"} Contents={"one"} Tells=TRUE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
