SPECIFICATION Spec
CONSTANTS Contents={"empty","huge"} Paths={"t","d/t","d/e/t"} DirKinds={"absent","dir","ro","file"} MaxUsed=1 Limits=FALSE
PROPERTIES NothingLost
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
