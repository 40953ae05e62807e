SPECIFICATION Spec
CONSTANTS Contents={"small","large","huge"} Paths={"t","d/t"} DirKinds={"absent","dir"} MaxUsed=2 Limits=TRUE
PROPERTIES NothingLost
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
