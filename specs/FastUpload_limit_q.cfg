SPECIFICATION Spec
CONSTANTS Contents={"small","large"} Paths={"t","d/t"} DirKinds={"absent"} MaxUsed=2 Limits=TRUE
PROPERTIES NothingLost
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
