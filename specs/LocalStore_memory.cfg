SPECIFICATION Spec
CONSTANTS Paths={"a/b/x","a/b/y","a/z","top","c/é d/w"} Contents={"one","two"} Tells=FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
